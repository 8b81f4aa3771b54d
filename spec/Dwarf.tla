------------------------------- MODULE Dwarf -------------------------------
(* Debug information and what an address resolves to.                      *)
(*                                                                         *)
(* db is a record                                                          *)
(*   files: seq of [d, f, abs]: directory as the line table has it, name,   *)
(*          whether the directory is an absolute path                      *)
(*   comps: directory of each compilation, "" when none is given           *)
(*   seqs:  the line tables' sequences, [rows, end]; rows: [a, f, l, x]:    *)
(*          address, file, line, discriminator                             *)
(*   dies:  functions and inlined calls: [cu, inl, up, name, link, sp, og,  *)
(*          decl, rs, cf, cl, cx]: up is what an inlined call is part of,   *)
(*          sp and og the entries that describe it further, rs the places   *)
(*          <<lo, hi>> of its code, cf, cl, cx the position of the call     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Covers(rs, a) == \E i \in DOMAIN rs : rs[i][1] <= a /\ a < rs[i][2]

(* Which entries a is part of; the innermost one. *)
Holding(db, a) == {i \in DOMAIN db.dies : Covers(db.dies[i].rs, a)}

RECURSIVE Depth(_, _)
Depth(db, i) == IF db.dies[i].inl THEN 1 + Depth(db, db.dies[i].up) ELSE 0

Innermost(db, a) ==
  LET H == Holding(db, a)
  IN IF H = {} THEN 0 ELSE CHOOSE i \in H : \A j \in H : Depth(db, j) <= Depth(db, i)

(* From the innermost inlined call to the function. *)
RECURSIVE Up(_, _)
Up(db, i) == IF db.dies[i].inl THEN <<i>> \o Up(db, db.dies[i].up) ELSE <<i>>
Nest(db, a) == LET i == Innermost(db, a) IN IF i = 0 THEN <<>> ELSE Up(db, i)

(* The entries that describe entry i, nearest first. *)
RECURSIVE Described(_, _)
Described(db, i) ==
  LET d == db.dies[i]
      n == IF d.sp # 0 THEN d.sp ELSE d.og
  IN IF n = 0 THEN <<i>> ELSE <<i>> \o Described(db, n)

FirstWith(s, P(_)) ==
  LET I == {k \in DOMAIN s : P(s[k])}
  IN IF I = {} THEN 0 ELSE s[CHOOSE k \in I : \A m \in I : k <= m]

(* Its name: the linkage name wherever it is given, or else the plain one. *)
Name(db, i) ==
  LET s == Described(db, i)
      l == FirstWith(s, LAMBDA j : db.dies[j].link # "")
      n == FirstWith(s, LAMBDA j : db.dies[j].name # "")
  IN IF l # 0 THEN db.dies[l].link ELSE IF n # 0 THEN db.dies[n].name ELSE ""

Start(db, i) ==
  LET n == FirstWith(Described(db, i), LAMBDA j : db.dies[j].decl # 0)
  IN IF n = 0 THEN 0 ELSE db.dies[n].decl

(* The line table's row for an address, as a sequence of at most one. *)
Rows(db, a) == {k \in DOMAIN db.seqs : /\ db.seqs[k].rows[1][1] <= a
                                       /\ a < db.seqs[k].end}
Row(db, a) ==
  LET K == Rows(db, a)
  IN IF K = {} THEN <<>>
     ELSE LET s == db.seqs[CHOOSE k \in K : TRUE].rows
              I == {i \in DOMAIN s : s[i][1] <= a}
          IN <<s[CHOOSE i \in I : \A j \in I : j <= i]>>

(* The reader of this repository gives whole directories, LLVM's those of   *)
(* the line table.                                                         *)
Dir(db, rd, cu, f) ==
  LET d == db.files[f].d
  IN IF rd = "llvm" \/ db.files[f].abs \/ db.comps[cu] = "" THEN d
     ELSE db.comps[cu] \o "/" \o d

(* One frame: the position fr must have. f = 0: the file is not known;      *)
(* any: neither are the line's other details.                              *)
Frame(db, rd, i, f, l, x, fr) ==
  /\ fr.fn = Name(db, i)
  /\ Start(db, i) # 0 => fr.sl = Start(db, i)
  /\ fr.ln = l
  /\ f # 0 => /\ fr.f = db.files[f].f
              /\ fr.d = Dir(db, rd, db.dies[i].cu, f)
              /\ fr.di = x

(* The frames of the callers: each at the position of the call below it. *)
Callers(db, rd, n, fs) ==
  \A k \in 2..Len(n) :
    LET c == db.dies[n[k - 1]]
    IN /\ Frame(db, rd, n[k], c.cf, c.cl, c.cx, fs[k])
       /\ fs[k].di = c.cx

Resolves(db, rd, a, fs) ==
  LET n == Nest(db, a)
      w == Row(db, a)
  IN CASE n # <<>> /\ w # <<>> /\ w[1][3] # 0 ->
            /\ Len(fs) = Len(n)
            /\ Frame(db, rd, n[1], w[1][2], w[1][3], w[1][4], fs[1])
            /\ Callers(db, rd, n, fs)
       [] n # <<>> ->      \* the position is not known
            \/ fs = <<>>
            \/ /\ Len(fs) = Len(n)
               /\ Frame(db, rd, n[1], 0, 0, 0, fs[1])
               /\ Callers(db, rd, n, fs)
       [] n = <<>> /\ w # <<>> /\ w[1][3] # 0 ->      \* the function is not
            \/ fs = <<>>
            \/ /\ Len(fs) = 1
               /\ fs[1] = [fn |-> "", d |-> db.files[w[1][2]].d, f |-> db.files[w[1][2]].f,
                           sl |-> 0, ln |-> w[1][3], di |-> w[1][4]]
       [] OTHER -> fs = <<>>
=============================================================================
