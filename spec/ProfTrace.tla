------------------------------- MODULE ProfTrace -----------------------------
(* Validates what SymbolMap, the writers and the readers did against Prof.    *)
EXTENDS Sym, TraceLib
VARIABLES l, regs, files, tab, sp
tvars == <<l, regs, files, tab, sp>>

(* ---- names: the script's table, sorted ---- *)
Ranks(tb) == [nm \in {tb[i].name : i \in DOMAIN tb} |-> CHOOSE i \in DOMAIN tb : tb[i].name = nm]
Entry(nm) == tab.e[tab.rank[nm]]
BaseName(nm, pol) == LET b == Base(Entry(nm).parts, pol) IN tab.byparts[b]
RECURSIVE SortedNames(_, _)
SortedNames(S, rank) ==
  IF S = {} THEN << >>
  ELSE LET nm == CHOOSE x \in S : \A y \in S : rank[x] <= rank[y] IN <<nm>> \o SortedNames(S \ {nm}, rank)
TgtOf(pol) == [nm \in DOMAIN tab.rank |-> BaseName(nm, pol)]
RenOf == [nm \in DOMAIN tab.rank |-> Entry(nm).ren]

(* ---- recorded trees ---- *)
Tgs(s) == FromPairs(s)
RECURSIVE NodeOf(_)
NodeOf(j) ==
  [t |-> j.t, h |-> j.h, f |-> j.f, d |-> j.d,
   p |-> [k \in {<<j.p[i][1], j.p[i][2]>> : i \in DOMAIN j.p} |->
           LET q == j.p[CHOOSE i \in DOMAIN j.p : <<j.p[i][1], j.p[i][2]>> = k] IN [n |-> q[3], i |-> q[4], tg |-> Tgs(q[5])]],
   c |-> [k \in {<<j.c[i][1], j.c[i][2], j.c[i][3]>> : i \in DOMAIN j.c} |->
           NodeOf(j.c[CHOOSE i \in DOMAIN j.c : <<j.c[i][1], j.c[i][2], j.c[i][3]>> = k][4])]]
(* No key appears twice in a recorded tree. *)
RECURSIVE KeysOnce(_)
KeysOnce(j) ==
  /\ Cardinality({<<j.p[i][1], j.p[i][2]>> : i \in DOMAIN j.p}) = Len(j.p)
  /\ Cardinality({<<j.c[i][1], j.c[i][2], j.c[i][3]>> : i \in DOMAIN j.c}) = Len(j.c)
  /\ \A i \in DOMAIN j.c : KeysOnce(j.c[i][4])
RECURSIVE LNodeOf(_)
LNodeOf(j) ==
  [t |-> j.t, h |-> j.h,
   p |-> [k \in {<<j.p[i][1], j.p[i][2]>> : i \in DOMAIN j.p} |->
           LET q == j.p[CHOOSE i \in DOMAIN j.p : <<j.p[i][1], j.p[i][2]>> = k] IN [n |-> q[3], tg |-> Tgs(q[4])]],
   c |-> [k \in {<<j.c[i][1], j.c[i][2], j.c[i][3]>> : i \in DOMAIN j.c} |->
           LNodeOf(j.c[CHOOSE i \in DOMAIN j.c : <<j.c[i][1], j.c[i][2], j.c[i][3]>> = k][4])]]

(* A recorded profile is r: the same names for the same functions, the same   *)
(* trees.                                                                     *)
SameNames(s, r) == {Range(s[i].names) : i \in DOMAIN s} = {{nm \in Names(r) : r.m[nm] = id} : id \in Ids(r)}
IsState(s, r) == /\ SameNames(s, r)
                 /\ \A i \in DOMAIN s : KeysOnce(s[i].x) /\ NodeOf(s[i].x) = Node(r, s[i].names[1])
(* The same with file names left open, and r with the recorded file names.    *)
RECURSIVE Bare(_)
Bare(x) == [x EXCEPT !.f = "", !.d = "", !.c = [k \in DOMAIN @ |-> Bare(@[k])]]
IsBare(s, r) == /\ SameNames(s, r)
                /\ \A i \in DOMAIN s : KeysOnce(s[i].x) /\ Bare(NodeOf(s[i].x)) = Bare(Node(r, s[i].names[1]))
Adopted(s, r) == [r EXCEPT !.n = [id \in DOMAIN @ |->
                   IF \E i \in DOMAIN s : r.m[s[i].names[1]] = id
                   THEN NodeOf(s[CHOOSE i \in DOMAIN s : r.m[s[i].names[1]] = id].x) ELSE @[id]]]
(* Every file a function's nodes have. *)
RECURSIVE FilesIn(_, _)
FilesIn(x, nm) == {<<nm, x.f>>, <<nm, IF x.d = "" \/ x.f = "" THEN x.f ELSE x.d \o "/" \o x.f>>}
                  \cup UNION {FilesIn(x.c[k], k[3]) : k \in DOMAIN x.c}
RECURSIVE PlainFiles(_, _)
PlainFiles(x, nm) == {<<nm, x.f>>} \cup UNION {PlainFiles(x.c[k], k[3]) : k \in DOMAIN x.c}
(* The file each node is written with; a function of several names is known  *)
(* by the one it got first, which is not recorded.                           *)
RECURSIVE WrittenFiles(_, _)
WrittenFiles(x, nm) == {<<nm, IF x.d = "" THEN x.f ELSE x.d \o "/" \o x.f>>}
                       \cup UNION {WrittenFiles(x.c[k], k[3]) : k \in DOMAIN x.c}
SureFiles(r) ==
  LET two == {nm \in Names(r) : \E o \in Names(r) : o # nm /\ r.m[o] = r.m[nm]}
      all == UNION {WrittenFiles(Node(r, nm), nm) : nm \in Names(r)}
  IN all \cup {<<nm, "?">> : nm \in two} \cup {<<nm, "??">> : nm \in two}
AllFiles(r) == UNION {FilesIn(Node(r, nm), nm) : nm \in Names(r)}
RenFiles(fs) == fs \cup {<<Apply(RenOf, q[1]), q[2]>> : q \in fs} \cup {<<nm, "">> : nm \in DOMAIN tab.rank}

Frames(st) == st   \* frames carry fn, f, d, s, l, x
(* ---- operations ---- *)
R(t) == regs[t.m]
Put2(b, k, v) == [x \in DOMAIN b \cup {k} |-> IF x = k THEN v ELSE b[x]]
(* r is the outcome, and the recorded state is r *)
Becomes(t, r) == IsState(t.st, r) /\ regs' = Put2(regs, t.m, r) /\ UNCHANGED <<files, tab, sp>>
Becomes3(t, r) == IsBare(t.st, r) /\ regs' = Put2(regs, t.m, Adopted(t.st, r)) /\ UNCHANGED <<files, tab, sp>>
Same == UNCHANGED <<regs, files, tab, sp>>
NoSets == [i \in 1..128 |-> <<0, 0>>]

(* GCC files: name -> node as written. *)
RECURSIVE ReadGcc(_, _, _, _)
ReadGcc(r, fl, todo, force) ==
  IF todo = << >> THEN r
  ELSE LET nm == Apply(RenOf, todo[1])
           s == AddSym(r, nm)
           x == [AsRead(fl.n[todo[1]], RenOf, TgtOf(r.pol), NoCounts, nm) EXCEPT !.h = fl.n[todo[1]].h]
           w == RanAt(s, nm, fl.ts[todo[1]])
       IN ReadGcc(IF force \/ Node(s, nm).t = 0 THEN SetNode(w, nm, MergeNode(Node(s, nm), x)) ELSE w, fl, Tail(todo), force)
(* A read profile's file names are ones the file or the profile had. *)
ReadFiles(t, r, fl) ==
  LET a == Adopted(t.st, r)
      obs == UNION {PlainFiles(Node(a, nm), nm) : nm \in Names(a)}
      sure(nm) == {q[2] : q \in {w \in fl.sure : Apply(RenOf, w[1]) = nm}}
  IN /\ obs \subseteq RenFiles(fl.files) \cup RenFiles(AllFiles(R(t)))
     \* into an empty profile, a function written with one file comes back with it
     /\ Names(R(t)) = {} /\ fl.ver >= 3 =>
          \A q \in obs : Cardinality(sure(q[1])) = 1 => q[2] \in sure(q[1])
Halved(n) == (n \div 10) * 10
ReadSets(ws, fws) == [i \in 1..128 |-> <<IF ws[i][1] = 0 THEN Halved(fws[i][1]) ELSE (ws[i][1] + Halved(fws[i][1])) \div 2, ws[i][2] + fws[i][2]>>]

(* What a version 1 file declares. *)
RECURSIVE Strings(_)
Strings(x) == UNION {DOMAIN x.p[k].tg : k \in DOMAIN x.p} \cup UNION {{k[3]} \cup Strings(x.c[k]) : k \in DOMAIN x.c}
Declares(r) == LET E == Emitted(r)
               IN <<TRUE, 1, TRUE, 1 + Cardinality(E \cup UNION {Strings(Node(r, nm)) : nm \in E}), TRUE,
                    TRUE, Cardinality(E), TRUE, TRUE, TRUE, TRUE, TRUE>>

(* LLVM trees, recorded as <<name, tree>>. *)
IsLlvm(out, fl) == /\ Len(out) = Cardinality(DOMAIN fl)
                   /\ \A i \in DOMAIN out : out[i][1] \in DOMAIN fl /\ LNodeOf(out[i][2]) = fl[out[i][1]]
LlvmOf(r) == [nm \in Emitted(r) |-> AsLlvm(Node(r, nm), TRUE)]
(* LLVM takes an empty text for no profile at all. *)
Unreadable(fl, fmt) == fmt = "text" /\ DOMAIN fl = {}
Class(nm) == Entry(nm).cls
(* special: what becomes of one function read *)
ReadOne(r, skip, nm, y, special) ==
  LET merged == MergeInto(r, nm, ReadLlvmTop(y, TgtOf(r.pol)))
  IN IF ~special THEN <<merged, skip>>
     ELSE IF nm \in skip \/ Class(nm) = "strip" THEN <<r, skip>>
     ELSE IF Class(nm) = "sole" THEN IF nm \in Names(r) THEN <<Removed(r, {nm}), skip \cup {nm}>> ELSE <<merged, skip>>
     ELSE IF Class(nm) = "cold" THEN IF nm \in Names(r) THEN <<r, skip>>
                                     ELSE <<MergeInto(r, nm, [NewNode EXCEPT !.t = 11]), skip \cup {nm}>>
     ELSE <<merged, skip>>
RECURSIVE ReadLlvm(_, _, _, _, _)
ReadLlvm(r, skip, fl, todo, special) ==
  IF todo = << >> THEN <<r, skip>>
  ELSE LET one == ReadOne(r, skip, todo[1], fl[todo[1]], special)
       IN ReadLlvm(one[1], one[2], fl, Tail(todo), special)

(* inclusive counts, recorded in the tree *)
RECURSIVE InclOk(_, _, _, _, _)
InclOk(r, e, S, x, j) ==
  \A i \in DOMAIN j.c :
     LET k == <<j.c[i][1], j.c[i][2], j.c[i][3]>>
     IN j.c[i][4].incl = InclNode(r, e, S, x.c[k]) /\ InclOk(r, e, S, x.c[k], j.c[i][4])

(* the possible entry counts *)
RECURSIVE FirstSet(_)
FirstSet(x) ==
  LET lim == 10000
      ps == {k \in DOMAIN x.p : k[1] >= 0 /\ k[1] < lim}
      cs == {k \in DOMAIN x.c : k[1] >= 0 /\ k[1] < lim}
      offs == ps \cup {Loc(k) : k \in cs}
      lo == CHOOSE o \in offs : \A q \in offs : q = o \/ OffLess(o, q)
  IN IF offs = {} THEN {0}
     ELSE IF lo \in ps THEN {x.p[lo].n} ELSE UNION {FirstSet(x.c[k]) : k \in At(x.c, lo)}

(* ---- binaries ---- *)
BinOf(t) == NewBinary(t.syms, t.phs, t.text, t.kernel)
BinReg(t, b) == NewProfile(t.pol) @@ [ws |-> NoSets, bin |-> b]
Elided(r) == LET s == SelectSeq(SortedNames(Names(r), tab.rank), LAMBDA nm : BaseName(nm, r.pol) # nm)
             IN ElideSeq(r, [i \in DOMAIN s |-> <<s[i], BaseName(s[i], r.pol)>>])
Table(ps) == [k \in {ps[i][1] : i \in DOMAIN ps} |-> ps[CHOOSE i \in DOMAIN ps : ps[i][1] = k][2]]
Samples(t) == [ad |-> Table(t.ad), rg |-> Table(t.rg), br |-> Table(t.br), ts |-> Table(t.ts), tot |-> t.tot, floor |-> t.floor]
Stacks(t) == [a \in {t.src[i][1] : i \in DOMAIN t.src} |->
               LET x == t.src[CHOOSE i \in DOMAIN t.src : t.src[i][1] = a] IN [st |-> x[2], dup |-> x[3]]]
(* The profile of a run, with when each function first ran.                   *)
ProfileOf(r0, q, src, mode, frac) ==
  LET Orig(nm) == BaseName(nm, r0.pol)
      r == IF mode = "llc" THEN Misses(r0.bin, q, src, r0.pol, frac)
           ELSE Computed(r0.bin, q, src, r0.pol, frac, mode = "lbr", Orig)
  IN Elided(r) @@ [ws |-> NoSets, bin |-> r0.bin]
Profiled(t, r0) == ProfileOf(r0, Samples(t), Stacks(t), t.mode, t.frac)
TimesOk(ts, r) == \A i \in DOMAIN ts : ts[i][2] = TimeOf(r, ts[i][1])
At3(b, a) == LET s == StartOf(b, a) IN IF s = None THEN <<"", 0, 0>> ELSE <<b.at[s].nm, s, s + b.at[s].z>>
StartName(b, a) == IF a \in DOMAIN b.at THEN b.at[a].nm ELSE ""

(* sanity thresholds *)
RECURSIVE Srcs(_)
Srcs(x) == <<Cardinality(DOMAIN x.p) + SumOver(DOMAIN x.c, LAMBDA k : Srcs(x.c[k])[1]),
             Cardinality(DOMAIN x.p \ {<<0, 0>>}) + SumOver(DOMAIN x.c, LAMBDA k : Srcs(x.c[k])[2])>>
ValidOk(r, res) ==
  LET ids == {id \in Ids(r) : r.n[id].t # 0}
      sum == SumOver(ids, LAMBDA id : r.n[id].t)
      all == SumOver(ids, LAMBDA id : Srcs(r.n[id])[1])
      off == SumOver(ids, LAMBDA id : Srcs(r.n[id])[2])
      base == /\ Cardinality(Names(r)) >= 10 /\ sum >= 1000000
              /\ \E id \in ids : CallsOf(r.n[id]) # << >>
              /\ \E id \in ids : DOMAIN r.n[id].c # {}
  IN IF ~base THEN ~res ELSE IF 5 * off = 3 * all THEN TRUE ELSE res = (5 * off > 3 * all)

SumTotals(r, S) == SumOver(S, LAMBDA id : r.n[id].t)
Frac(n, a) == Max2(10, (n * a) \div 64)

PosOf(r, E) == FoldSet(LAMBDA nm, acc : acc \o Counts(Node(r, nm)), << >>, E)
Freq(cs) == FoldLeft(LAMBDA acc, q : Inc(acc, q[1], 1), NoCounts, cs)
MaxIn(S) == IF S = {} THEN 0 ELSE Max(S)
SummaryOk(r, out, cuts, gap) ==
  LET E == Emitted(r)
      cs == PosOf(r, E)
      tot == SumSeq(cs, LAMBDA q : q[1])
  IN /\ out[1] = tot /\ out[2] = MaxIn({cs[i][1] : i \in DOMAIN cs})
     /\ out[3] = MaxIn({Node(r, nm).h : nm \in E}) /\ out[4] = Len(cs) /\ out[5] = Cardinality(E)
     /\ Len(out[6]) >= Len(cuts)
     /\ \A i \in DOMAIN cuts :
          LET x == Reach(Freq(cs), 0, 0, 0, tot * cuts[i], gap)
          IN out[6][i] = <<cuts[i] * 1000, x.min, x.num>>
DefaultCuts == <<10, 100, 200, 300, 400, 500, 600, 700, 800, 900, 950, 990, 999>>

(* working sets of the functions with samples; den 129 or whole buckets *)
SetsOf(r, den) ==
  LET h == Hotness(AllCounts(r, {id \in Ids(r) : r.n[id].t # 0}))
      tot == SumOver(DOMAIN h, LAMBDA c : c * h[c])
  IN IF tot = 0 THEN r.ws
     ELSE [b \in 1..128 |-> LET x == IF den = 1 THEN Take(h, (tot \div 129) * b, 0, 1) ELSE Take(h, tot * b, 0, 129)
                            IN <<x.num, x.min>>]

(* ... which a run's profile comes with, unless it is one of misses.          *)
WithSets(r, mode, floor) == IF mode = "llc" \/ floor = 0 THEN r ELSE [r EXCEPT !.ws = SetsOf(r, 1)]

(* ---- tools ---- *)
NewMap(pol) == NewProfile(pol) @@ [ws |-> NoSets]
Cut(t, r) == [r EXCEPT !.thr = IF t.floor = 0 THEN 0 ELSE Frac(SumTotals(r, Ids(r)), t.a)]
RECURSIVE ReadAllGcc(_, _)
ReadAllGcc(r, fls) ==
  IF fls = << >> THEN r
  ELSE ReadAllGcc([ReadGcc(r, fls[1], SortedNames(DOMAIN fls[1].n, tab.rank), TRUE) EXCEPT !.ws = ReadSets(@, fls[1].ws)], Tail(fls))
RECURSIVE ReadAllLlvm(_, _, _, _)
ReadAllLlvm(r, skip, fls, special) ==
  IF fls = << >> THEN r
  ELSE LET one == ReadLlvm(r, skip, fls[1].n, SortedNames(DOMAIN fls[1].n, tab.rank), special)
       IN ReadAllLlvm(one[1], one[2], Tail(fls), special)
Ins(t) == [i \in DOMAIN t.ins |-> files[t.ins[i]]]
(* merging files of the GCC format *)
MergedGcc(t, fls) ==
  LET r == Cut(t, ReadAllGcc(NewMap(t.pol), fls))
  IN [k |-> "gcc", ver |-> t.ver, n |-> [nm \in Emitted(r) |-> Node(r, nm)],
      ts |-> [nm \in Emitted(r) |-> IF t.ver < 3 THEN 0 ELSE TimeOf(r, nm)],
      ws |-> r.ws, files |-> UNION {RenFiles(fls[i].files) : i \in DOMAIN fls}, sure |-> {}, r |-> [r EXCEPT !.ws = << >>]]
(* merging files of the LLVM format, then flattening and removing *)
MergedLlvm(t, fls) ==
  LET r0 == Cut(t, ReadAllLlvm(NewMap(t.pol), {}, fls, t.special))
      r1 == IF t.nest <= 0 THEN r0 ELSE LimitAll(r0, 0, t.nest, 0, tab.rank).r
  IN Removed(r1, Range(t.sel))
Refused(t) ==
  \/ t.fmt \notin {"text", "binary", "extbinary"}
  \/ t.fmt # "extbinary" /\ Range(t.flags) \cap {"compress", "use_md5", "partial_profile", "split_layout"} # {}
(* The least a total can drop to when instances are dropped.                  *)
Least(x) == x.t - Min2(x.t, SumOver(DOMAIN x.c, LAMBDA k : x.c[k].t))
MergedOk(t, r) ==
  LET outs == {t.out[i][1] : i \in DOMAIN t.out}
      at(nm) == LNodeOf(t.out[CHOOSE i \in DOMAIN t.out : t.out[i][1] = nm][2])
  IN IF Unreadable(LlvmOf(r), t.fmt) THEN TRUE
     ELSE /\ Len(t.out) = Cardinality(outs) /\ outs \subseteq Names(r)
          /\ \A nm \in outs : LET y == at(nm) IN y.t > r.thr /\ LlvmCut(AsLlvm(Node(r, nm), TRUE), y, t.inl, t.tgs)
          /\ \A nm \in Names(r) \ outs : Node(r, nm).t <= r.thr \/ (t.inl > 0 /\ Least(Node(r, nm)) <= r.thr)
HeldLlvm(t, fmt) == [k |-> "llvm", fmt |-> fmt, n |-> [nm \in {t.out[i][1] : i \in DOMAIN t.out} |->
                       LNodeOf(t.out[CHOOSE i \in DOMAIN t.out : t.out[i][1] = nm][2])],
                     list |-> Range(t.has)]
ListOf(fl) == IF "list" \in DOMAIN fl THEN fl.list ELSE {}
MergeTool(t) ==
  LET fls == Ins(t)
      bad == \E i \in DOMAIN fls : fls[i].k = "llvm" /\ Unreadable(fls[i].n, fls[i].fmt)
  IN IF ~(Range(t.ins) \subseteq DOMAIN files)   \* an earlier run made none
     THEN t.rc # 0 /\ ~t.exists /\ Same
     ELSE IF t.llvm
     THEN \E r \in {IF bad \/ Refused(t) THEN NewMap(t.pol) ELSE MergedLlvm(t, fls)} :
          IF bad \/ Refused(t) THEN t.rc # 0 /\ ~t.exists /\ Same
          ELSE /\ t.rc = 0 /\ t.exists /\ MergedOk(t, r)
               /\ IF Unreadable(LlvmOf(r), t.fmt) \/ ~Has(t, "has") THEN Unreadable(LlvmOf(r), t.fmt) /\ Same
                  ELSE /\ t.is = t.fmt
                       /\ t.partial = (t.fmt = "extbinary" /\ "partial_profile" \in Range(t.flags))
                       /\ t.md5 = (t.fmt = "extbinary" /\ "use_md5" \in Range(t.flags))
                       /\ t.zip = (t.fmt = "extbinary" /\ "compress" \in Range(t.flags))
                       /\ Range(t.has) = (IF t.fmt = "extbinary" /\ "include_symbol_list" \in Range(t.flags)
                                          THEN UNION {ListOf(fls[i]) : i \in DOMAIN fls} ELSE {})
                       /\ files' = Put2(files, t.file, HeldLlvm(t, t.fmt)) /\ UNCHANGED <<regs, tab, sp>>
     ELSE /\ t.rc = 0 /\ t.exists
          /\ \E fl \in {MergedGcc(t, fls)} : files' = Put2(files, t.file, fl)
          /\ UNCHANGED <<regs, tab, sp>>
(* making a profile from a recording and the binary it ran; the stacks of the *)
(* binary's addresses are as its debug information says.                      *)
CodeOf(t, raw) == t.discs[CHOOSE i \in DOMAIN t.discs : t.discs[i][1] = raw]
RealStacks(t, b) ==
  [a \in {t.src[i][1] : i \in DOMAIN t.src} |->
    LET st == t.src[CHOOSE i \in DOMAIN t.src : t.src[i][1] = a][2]
    IN [st |-> [j \in DOMAIN st |-> [fn |-> st[j].fn, f |-> st[j].f, d |-> st[j].d, s |-> st[j].s, l |-> st[j].l,
                                     x |-> IF t.enc /\ ~b.fs THEN CodeOf(t, st[j].raw)[2] ELSE st[j].raw]],
        dup |-> IF b.fs THEN 1 ELSE CodeOf(t, st[1].raw)[3]]]
(* a recorded mapping is the binary's: it has its build id, or its name       *)
Own(t, m) == IF t.re THEN m.sel
             ELSE IF t.bid # "" THEN \E i \in DOMAIN t.maps : t.maps[i].name = m.name /\ t.maps[i].bid = t.bid
             ELSE Len(m.name) > 1 /\ Last(m.name) = "@"
RunOf(t) ==
  LET ad == Table(t.ad)
      rg == Table(t.rg)
  IN [k |-> "run", ad |-> ad, rg |-> rg, br |-> Table(t.br), ts |-> Table(t.ts),
      tot |-> IF rg # << >> THEN SumOver(DOMAIN rg, LAMBDA k : rg[k] * (1 + k[2] - k[1])) ELSE SumOver(DOMAIN ad, LAMBDA a : ad[a])]
(* hints: every one is a call from its address, numbered among those of it    *)
Hinted(r0, src, hints) ==
  LET b == r0.bin
      step(acc, h) ==
        LET s == StartOf(b, h[1])
            nm == b.at[s].nm
            st == StackAt(src, h[1])
            r1 == AddSym(acc.r, nm)
            x0 == IF nm \in Names(acc.r) THEN Node(acc.r, nm) ELSE Weigh(Node(r1, nm), st, 1)
        IN IF s = None THEN acc
           ELSE [r |-> IF st = << >> THEN acc.r
                       ELSE SetNode(r1, nm, AddCall(x0, st, "__prefetch_" \o h[3] \o "_" \o ToString(Get(acc.k, h[1])), h[2], FALSE)),
                 k |-> Inc(acc.k, h[1], 1)]
  IN Elided(FoldLeft(step, [r |-> [NewProfile(r0.pol) EXCEPT !.al = b.al], k |-> NoCounts], hints).r) @@ [ws |-> NoSets, bin |-> b]
Made(t, fl) ==
  LET r0 == R(t)
  IN IF fl.k = "hints" THEN Hinted(r0, r0.src, fl.hints)
     ELSE WithSets(ProfileOf(r0, [ad |-> fl.ad, rg |-> fl.rg, br |-> fl.br, ts |-> fl.ts, tot |-> fl.tot, floor |-> t.floor], r0.src, t.mode, t.a),
                   t.mode, t.floor)
MustRefuse(t) ==
  \/ t.ins[1] \notin DOMAIN files \/ files[t.ins[1]].k = "bad" \/ t.wrong
  \/ t.tool = "create_llvm_prof" /\ (t.fmt \notin {"text", "binary", "extbinary"} \/ (t.symlist /\ t.fmt # "extbinary"))
CreateTool(t) ==
  LET Orig(nm) == BaseName(nm, R(t).pol)
  IN IF MustRefuse(t) THEN t.rc # 0 /\ ~t.exists /\ Same
     ELSE \E r \in {Made(t, files[t.ins[1]])} :
       /\ t.rc = 0 /\ t.exists
       /\ IF t.tool = "create_gcov"
          THEN files' = Put2(files, t.file, [k |-> "gcc", ver |-> t.ver, n |-> [nm \in Emitted(r) |-> Node(r, nm)],
                                             ts |-> [nm \in Emitted(r) |-> IF t.ver < 3 THEN 0 ELSE TimeOf(r, nm)],
                                             ws |-> r.ws, files |-> IF t.ver < 3 THEN {} ELSE AllFiles(r),
                                             sure |-> IF t.ver < 3 THEN {} ELSE SureFiles(r), r |-> [r EXCEPT !.ws = << >>]])
          ELSE LET un == Unreadable(LlvmOf(r), t.fmt)
               IN /\ IF un THEN TRUE ELSE IF ~Has(t, "is") THEN FALSE ELSE t.is = t.fmt /\ IsLlvm(t.out, LlvmOf(r)) /\ ~t.partial
                  /\ ~un => Range(t.has) = (IF t.symlist THEN SymList(Unknown(r.bin, r, Orig), t.cov, 64, FALSE, Orig) ELSE {})
                  /\ files' = Put2(files, t.file, [k |-> "llvm", n |-> LlvmOf(r), fmt |-> t.fmt, list |-> IF un THEN {} ELSE Range(t.has)])
       /\ UNCHANGED <<regs, tab, sp>>
(* printing a file *)
LineOk(o, x) ==
  /\ Len(o) = Len(x) /\ o[1] = x[1]
  /\ \A i \in DOMAIN x : IF o[1] = "P" /\ i = 6 THEN TRUE ELSE o[i] = x[i]
  /\ o[1] = "P" => /\ Len(o[6]) = Cardinality(DOMAIN x[6]) /\ Tgs(o[6]) = x[6]
                   /\ \A i \in 1 .. Len(o[6]) - 1 : o[6][i][2] >= o[6][i + 1][2]
DumpTool(t) ==
  LET fl == files[t.ins[1]]
  IN \E p \in {Printout(ReadGcc(NewMap(t.pol), fl, SortedNames(DOMAIN fl.n, tab.rank), FALSE), tab.rank)} :
     t.rc = 0 /\ Len(t.out) = Len(p) /\ (\A i \in DOMAIN p : LineOk(t.out[i], p[i])) /\ Same
(* comparing two files: the functions hot in either, then the overlap *)
DiffTool(t) ==
  LET fls == Ins(t)
      a == ReadLlvm(NewMap(t.pol), {}, fls[1].n, SortedNames(DOMAIN fls[1].n, tab.rank), FALSE)[1]
      b == ReadLlvm(NewMap(t.pol), {}, fls[2].n, SortedNames(DOMAIN fls[2].n, tab.rank), FALSE)[1]
      T(r, nm) == IF nm \in Names(r) THEN Node(r, nm).t ELSE 0
      top(r) == MaxIn({Node(r, nm).t : nm \in Names(r)})
      ma == top(a)
      mb == top(b)
      hot(r, m) == {nm \in Names(r) : Node(r, nm).t > 0 /\ Node(r, nm).t * 100 >= m * t.pct}
      hb == {nm \in hot(b, mb) : nm \in Names(a) => T(a, nm) * 100 < ma * t.pct}
      n == Len(t.out)
      \* v / m in ten thousandths of a percent, rounded
      share(v, m, q) == LET d == ((v * 1000) \div m) * 1000 + (((v * 1000) % m) * 1000) \div m
                        IN IF m = 0 THEN q = -1 ELSE q \in {d, d + 1}
      o == OverlapOf(a, b)
      part(i, j) == {t.out[q][3] : q \in i .. j}
      na == Cardinality(hot(a, ma))
      nb == Cardinality(hb)
  IN /\ t.rc = 0 /\ n = 1 + (IF t.cmp THEN na + nb ELSE 0)
     /\ t.cmp => /\ part(1, na) = hot(a, ma) /\ part(na + 1, na + nb) = hb
                 /\ \A i \in 1 .. n - 1 : share(T(a, t.out[i][3]), ma, t.out[i][1]) /\ share(T(b, t.out[i][3]), mb, t.out[i][2])
                 /\ \A i \in 1 .. na - 1 : T(a, t.out[i][3]) >= T(a, t.out[i + 1][3])
                 /\ \A i \in na + 1 .. na + nb - 1 : T(b, t.out[i][3]) >= T(b, t.out[i + 1][3])
     /\ t.out[n] * o.den <= 10000 * o.num + o.den /\ t.out[n] * o.den + o.den >= 10000 * o.num
     /\ Same

Op(t) ==
  CASE t.op = "new" -> Becomes(t, NewProfile(t.pol) @@ [ws |-> NoSets])
    [] t.op = "sym" -> Becomes(t, AddSym(R(t), t.name))
    [] t.op = "alias" -> Becomes(t, [R(t) EXCEPT !.al = Put2(@, t.name, Fetch(@, t.name, {}) \cup {t.alias})])
    [] t.op = "src" -> Becomes(t, SetNode(R(t), t.name, Add(Node(R(t), t.name), t.stack, t.n * t.dup, t.inst, t.strict)))
    \* many new positions with the same count
    [] t.op = "many" ->
         LET x == Node(R(t), t.name)
             new == {<<20000 + i, 0>> : i \in 1..t.k}
         IN Becomes(t, SetNode(R(t), t.name,
              [x EXCEPT !.t = @ + t.k * t.n,
                        !.p = TLCEval([q \in DOMAIN @ \cup new |-> IF q \in new THEN [NoPos EXCEPT !.n = t.n, !.i = 1] ELSE @[q]])]))
    [] t.op = "call" -> /\ Becomes(t, SetNode(R(t), t.name, AddCall(Node(R(t), t.name), t.stack, BaseName(t.to, R(t).pol), t.n, t.strict)))
                        /\ t.r = (t.stack # << >> /\ ~(t.strict /\ Invalid(t.stack[1])))
    [] t.op = "entry" -> LET x == Node(R(t), t.name)
                         IN Becomes(t, SetNode(R(t), t.name, [x EXCEPT !.h = @ + t.h, !.t = @ + t.n]))
    [] t.op = "elide" -> Becomes(t, Elided(R(t)))
    [] t.op = "orig" -> t.r = BaseName(t.name, R(t).pol) /\ Same
    [] t.op = "thr" -> regs' = Put2(regs, t.m, [R(t) EXCEPT !.thr = t.n]) /\ IsState(t.st, R(t)) /\ UNCHANGED <<files, tab, sp>>
    [] t.op = "calcthr" -> LET v == Frac(IF t.sum THEN SumTotals(R(t), Ids(R(t))) ELSE t.n, t.a)
                           IN t.r = v /\ regs' = Put2(regs, t.m, [R(t) EXCEPT !.thr = v]) /\ IsState(t.st, R(t)) /\ UNCHANGED <<files, tab, sp>>
    [] t.op = "emits" -> (\A i \in DOMAIN t.ns : t.r[i] = (t.ns[i] > R(t).thr)) /\ Same
    [] t.op = "writegcc" ->
         /\ t.r /\ IsState(t.st, R(t)) /\ (t.ver = 1 => t.decl = Declares(R(t)))
         /\ files' = Put2(files, t.file, [k |-> "gcc", ver |-> t.ver, n |-> [nm \in Emitted(R(t)) |-> Node(R(t), nm)],
                                          ts |-> [nm \in Emitted(R(t)) |-> IF t.ver < 3 THEN 0 ELSE TimeOf(R(t), nm)],
                                          ws |-> R(t).ws, files |-> IF t.ver < 3 THEN {} ELSE AllFiles(R(t)),
                                          sure |-> IF t.ver < 3 THEN {} ELSE SureFiles(R(t)), r |-> [R(t) EXCEPT !.ws = << >>]])
         /\ UNCHANGED <<regs, tab, sp>>
    [] t.op = "readgcc" ->
         LET fl == files[t.file]
             r == [ReadGcc(R(t), fl, SortedNames(DOMAIN fl.n, tab.rank), t.force) EXCEPT !.ws = ReadSets(@, fl.ws)]
         IN /\ t.r /\ Becomes3(t, r) /\ ReadFiles(t, r, fl)
            /\ (fl.ver >= 3) = Has(t, "summary")
            /\ fl.ver >= 3 => SummaryOk(fl.r, t.summary, DefaultCuts, t.gap)
    [] t.op = "conv" -> IsLlvm(t.out, LlvmOf(R(t))) /\ Same
    [] t.op = "writellvm" ->
         /\ t.r
         /\ IF Unreadable(LlvmOf(R(t)), t.fmt) THEN TRUE
            ELSE IF ~Has(t, "is") THEN FALSE
            ELSE t.is = (IF t.fmt = "ext" THEN "extbinary" ELSE t.fmt) /\ IsLlvm(t.out, LlvmOf(R(t)))
         /\ Has(t, "list") => Range(t.has) = Range(t.list)
         /\ files' = Put2(files, t.file, [k |-> "llvm", n |-> LlvmOf(R(t)), fmt |-> t.fmt,
                                          list |-> IF Has(t, "list") THEN Range(t.list) ELSE {}]) /\ UNCHANGED <<regs, tab, sp>>
    [] t.op = "readllvm" ->
         LET fl == files[t.file]
             both == ReadLlvm(R(t), sp, fl.n, SortedNames(DOMAIN fl.n, tab.rank), t.special)
         IN /\ t.r = ~Unreadable(fl.n, fl.fmt)
            /\ IsState(t.st, both[1])
            /\ regs' = Put2(regs, t.m, both[1]) /\ sp' = both[2] /\ UNCHANGED <<files, tab>>
    [] t.op = "incl" ->
         LET r == R(t)
             e == CallEdges(r)
         IN /\ IsState(t.st, r) /\ Same
            /\ \A i \in DOMAIN t.st : LET id == r.m[t.st[i].names[1]]
                                          S == Cycle(e, id)
                                      IN t.st[i].x.incl = InclCycle(r, e, S) /\ InclOk(r, e, S, r.n[id], t.st[i].x)
    [] t.op = "ratio" -> LET r == R(t) IN Becomes(t, [r EXCEPT !.n = [id \in DOMAIN @ |-> Scaled(@[id], t.a, t.b)]])
    [] t.op = "sum" -> t.r = SumOver(Names(R(t)), LAMBDA nm : Node(R(t), nm).t) /\ Same
    [] t.op = "remove" -> Becomes(t, Removed(R(t), {t.name}))
    [] t.op = "removere" -> Becomes(t, Removed(R(t), Range(t.sel)))
    [] t.op = "throttle" ->
         LET r == R(t)
         IN /\ SameNames(t.st, r)
            /\ \A i \in DOMAIN t.st : Throttled(Node(r, t.st[i].names[1]), NodeOf(t.st[i].x), t.max)
            /\ regs' = Put2(regs, t.m, Adopted(t.st, r)) /\ UNCHANGED <<files, tab, sp>>
    [] t.op = "trim" ->
         LET r == R(t)
         IN /\ SameNames(t.st, r)
            /\ \A i \in DOMAIN t.st : CallsTrimmed(Node(r, t.st[i].names[1]), NodeOf(t.st[i].x), t.max)
            /\ regs' = Put2(regs, t.m, Adopted(t.st, r)) /\ UNCHANGED <<files, tab, sp>>
    [] t.op = "hybrid" ->
         LET src == regs[t.from]
             hy == [nm \in Names(src) |-> Hybrid(Node(src, nm), t.n)]
         IN /\ Becomes(t, HybridAll(R(t), src, Names(src), t.n))
            /\ t.r = <<SumOver(Names(src), LAMBDA nm : hy[nm].seen), SumOver(Names(src), LAMBDA nm : hy[nm].cut)>>
    [] t.op = "flat" ->
         LET src == regs[t.from]
         IN /\ Becomes(t, FlatAll(R(t), src, Names(src), t.sel, t.n, tab.rank))
            /\ t.r = <<Cardinality(Names(src)), Cardinality({nm \in Names(src) : ~(t.sel /\ Node(src, nm).t >= t.n)})>>
    [] t.op = "limit" ->
         LET s == IF t.max <= 0 THEN [r |-> R(t), num |-> 0] ELSE LimitAll(R(t), 0, t.max, 0, tab.rank)
         IN Becomes(t, s.r) /\ t.r = s.num
    [] t.op = "ws" -> LET w == SetsOf(R(t), t.den)
                      IN t.out = w /\ regs' = Put2(regs, t.m, [R(t) EXCEPT !.ws = w]) /\ UNCHANGED <<files, tab, sp>>
    [] t.op = "upws" -> LET i == t.i + 1
                            o == R(t).ws[i]
                        IN regs' = Put2(regs, t.m, [R(t) EXCEPT !.ws[i] = <<IF o[1] = 0 THEN t.num ELSE (o[1] + t.num) \div 2, o[2] + t.n>>])
                           /\ UNCHANGED <<files, tab, sp>>
    [] t.op = "getws" -> t.out = R(t).ws /\ Same
    [] t.op = "summary" -> SummaryOk(R(t), t.out, t.cuts, t.gap) /\ Len(t.out[6]) = Len(t.cuts) /\ Same
    [] t.op = "overlap" -> LET o == OverlapOf(R(t), regs[t.with])
                           IN t.r * o.den <= 10000 * o.num + o.den /\ t.r * o.den + o.den >= 10000 * o.num /\ Same
    [] t.op = "first" -> (IF t.name \in Names(R(t)) THEN t.r \in FirstSet(Node(R(t), t.name)) ELSE t.r = -1) /\ Same
    [] t.op = "names" -> Range(t.out) = InProfile(R(t)) /\ Same
    [] t.op = "newbin" -> \E b \in {BinOf(t)} : Becomes(t, [BinReg(t, b) EXCEPT !.al = b.al]) /\ (Has(t, "fs") => t.fs = b.fs)
    [] t.op = "at" -> (\A i \in DOMAIN t.as : t.out[i] = At3(R(t).bin, t.as[i]) /\ t.by[i] = StartName(R(t).bin, t.as[i])) /\ Same
    [] t.op = "vaddr" -> (\A i \in DOMAIN t.os : t.out[i] = Vaddr(R(t).bin, t.os[i])) /\ Same
    [] t.op = "offs" -> (\A i \in DOMAIN t.vs : t.out[i] = Offset(R(t).bin, t.vs[i])) /\ Same
    [] t.op = "sampled" ->
         LET b == R(t).bin
             got == {t.out[i][1] : i \in DOMAIN t.out}
         IN /\ Sampled(b, R(t), Range(t.os)) \subseteq got /\ got \subseteq MaySample(b, R(t), Range(t.os))
            /\ \A i \in DOMAIN t.out : t.out[i][2] = b.at[t.out[i][1]].z
            /\ Same
    [] t.op = "fill" -> Range(t.out) = SymList(t.q, t.a, t.b, t.exact, LAMBDA nm : BaseName(nm, R(t).pol)) /\ Same
    [] t.op = "symlist" ->
         LET Orig(nm) == BaseName(nm, R(t).pol)
         IN Range(t.out) = SymList(Unknown(R(t).bin, R(t), Orig), t.a, t.b, FALSE, Orig) /\ Same
    [] t.op = "compute" -> \E r \in {WithSets(Profiled(t, R(t)), t.mode, t.floor)} : Becomes(t, r) /\ TimesOk(t.times, r) /\ t.r = r.thr
    [] t.op = "srcs" -> regs' = Put2(regs, t.m, R(t) @@ [src |-> RealStacks(t, R(t).bin)]) /\ UNCHANGED <<files, tab, sp>>
    [] t.op = "put" -> files' = Put2(files, t.file, IF t.k = "hints" THEN [k |-> "hints", hints |-> t.hints]
                                                  ELSE IF t.k = "bad" THEN [k |-> "bad"] ELSE RunOf(t)) /\ UNCHANGED <<regs, tab, sp>>
    [] t.op = "record" -> /\ \A i \in DOMAIN t.maps : t.maps[i].own = Own(t, t.maps[i])
                          /\ files' = Put2(files, t.file, RunOf(t)) /\ UNCHANGED <<regs, tab, sp>>
    [] t.op = "ran" -> regs' = Put2(regs, t.m, RanAt(R(t), t.name, t.v)) /\ UNCHANGED <<files, tab, sp>>
    [] t.op = "times" -> TimesOk(t.times, R(t)) /\ Len(t.times) = Cardinality(Names(R(t))) /\ Same
    [] t.op = "tool" /\ t.tool = "profile_merger" -> MergeTool(t)
    [] t.op = "tool" /\ t.tool \in {"create_llvm_prof", "create_gcov"} -> CreateTool(t)
    [] t.op = "tool" /\ t.tool = "dump_gcov" -> DumpTool(t)
    [] t.op = "tool" /\ t.tool = "profile_diff" -> DiffTool(t)
    [] t.op = "valid" -> ValidOk(R(t), t.r) /\ Same
    [] OTHER -> FALSE
Step(t) ==
  CASE t.e = "Reset" -> regs' = << >> /\ files' = << >> /\ tab' = << >> /\ sp' = {}
    [] t.e = "Names" -> /\ tab' = [e |-> t.tab, rank |-> Ranks(t.tab),
                                   byparts |-> [ps \in {t.tab[i].parts : i \in DOMAIN t.tab} |->
                                                 t.tab[CHOOSE i \in DOMAIN t.tab : t.tab[i].parts = ps].name]]
                        /\ UNCHANGED <<regs, files, sp>>
    [] t.e = "Op" -> Op(t)
    [] OTHER -> FALSE
TInit == l = 1 /\ regs = << >> /\ files = << >> /\ tab = << >> /\ sp = {}
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
