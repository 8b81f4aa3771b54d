------------------------------ MODULE DwarfMC ------------------------------
(* How a reader may answer: a map of address ranges filled from the         *)
(* innermost calls outwards, and one map of lines filled from all           *)
(* sequences. On every small program, entered in every order, both answer   *)
(* what Dwarf.tla says.                                                    *)
EXTENDS Dwarf
CONSTANTS N, MaxDies, MaxSeqs, MaxRows

VARIABLES ph, cover, up, todo, map, seqs, left, lines
vars == <<ph, cover, up, todo, map, seqs, left, lines>>

Points == 0..(N - 1)

(* ---- functions and inlined calls: cover[i] are entry i's addresses ---- *)
Kids(i) == {j \in DOMAIN up : up[j] = i}
Runs(S) == {<<lo, hi>> \in Points \X (1..N) : /\ lo < hi
                                             /\ \A a \in lo..(hi - 1) : a \in S
                                             /\ lo - 1 \notin S
                                             /\ hi \notin S}
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>>
            ELSE LET x == CHOOSE y \in S : \A z \in S : y[1] <= z[1]
                 IN <<x>> \o ToSeq(S \ {x})

Grow ==
  /\ ph = "grow"
  /\ Len(cover) < MaxDies
  /\ \E u \in 0..Len(cover), S \in SUBSET Points \ {{}} :
       /\ u # 0 => S \subseteq cover[u]
       /\ \A j \in Kids(u) : cover[j] \cap S = {}
       /\ cover' = Append(cover, S)
       /\ up' = Append(up, u)
  /\ todo' = {i \in 1..(Len(cover) + 1) : TRUE}
  /\ UNCHANGED <<ph, map, seqs, left, lines>>

(* ---- lines: a sequence is its rows <<a, line>> and its end ------------- *)
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i][1] <= s[i + 1][1]
RowSeqs(id) == {s \in UNION {[1..n -> Points \X {id * 10, id * 10 + 1}] : n \in 1..MaxRows} : Ascending(s)}
Place ==
  /\ ph = "grow"
  /\ Len(seqs) < MaxSeqs
  /\ \E s \in RowSeqs(Len(seqs) + 1), e \in 1..N :
       /\ e > s[1][1]
       /\ e >= s[Len(s)][1]
       /\ \A k \in DOMAIN seqs : seqs[k].end <= s[1][1]        \* sequences ascend here
       \* a last row without code does not hide another sequence's first one
       /\ \A k \in DOMAIN seqs : LET q == seqs[k].rows IN q[Len(q)][1] = seqs[k].end => s[1][1] # seqs[k].end
       /\ seqs' = Append(seqs, [rows |-> s, end |-> e])
  /\ left' = 1..(Len(seqs) + 1)
  /\ UNCHANGED <<ph, cover, up, todo, map, lines>>

Go == /\ ph = "grow" /\ ph' = "fill"
      /\ UNCHANGED <<cover, up, todo, map, seqs, left, lines>>

(* ---- the map of ranges: m is a set of <<lo, hi, entry>> --------------- *)
Strictly(o, lo, hi) == o[1] <= lo /\ hi <= o[2] /\ (o[1] # lo \/ o[2] # hi)
Insert(m, lo, hi, v) ==
  LET B == {o \in m : Strictly(o, lo, hi)}
  IN IF B # {}
     THEN LET o == CHOOSE x \in B : TRUE
          IN (m \ {o}) \cup {<<o[1], lo, o[3]>>, <<lo, hi, v>>, <<hi, o[2], o[3]>>}
     ELSE LET free == {a \in lo..(hi - 1) : \A o \in m : ~(o[1] <= a /\ a < o[2])}
          IN m \cup {<<r[1], r[2], v>> : r \in Runs(free)}
Clean(m) == {o \in m : o[1] < o[2]}
RECURSIVE InsertAll(_, _, _)
InsertAll(m, rs, v) ==
  IF rs = <<>> THEN m ELSE InsertAll(Clean(Insert(m, Head(rs)[1], Head(rs)[2], v)), Tail(rs), v)

(* An entry goes in once everything inlined in it has. *)
Fill == /\ ph = "fill"
        /\ \E i \in todo : /\ Kids(i) \cap todo = {}
                           /\ map' = InsertAll(map, ToSeq(Runs(cover[i])), i)
                           /\ todo' = todo \ {i}
        /\ UNCHANGED <<ph, cover, up, seqs, left, lines>>

(* ---- the map of lines: address -> line, 0 where a sequence ends -------- *)
Put(m, a, v) == [x \in DOMAIN m \cup {a} |-> IF x = a THEN v ELSE m[x]]
RECURSIVE PutRows(_, _)
PutRows(m, s) == IF s = <<>> THEN m ELSE PutRows(Put(m, Head(s)[1], Head(s)[2]), Tail(s))
Read(m, q) ==
  LET r == PutRows(m, q.rows)
      z == q.rows[Len(q.rows)][1] = q.end
  IN IF z \/ q.end \notin DOMAIN r THEN Put(r, q.end, 0) ELSE r
ReadSeq == /\ ph = "fill"
           /\ \E k \in left : /\ lines' = Read(lines, seqs[k])
                              /\ left' = left \ {k}
           /\ UNCHANGED <<ph, cover, up, todo, map, seqs>>

Init == /\ ph = "grow" /\ cover = <<>> /\ up = <<>> /\ todo = {} /\ map = {}
        /\ seqs = <<>> /\ left = {} /\ lines = [x \in {} |-> 0]
Next == Grow \/ Place \/ Go \/ Fill \/ ReadSeq
Spec == Init /\ [][Next]_vars

(* ---- what must hold --------------------------------------------------- *)
Db == [files |-> <<[d |-> "", f |-> "f", abs |-> FALSE]>>, comps |-> <<"">>,
       seqs |-> [k \in DOMAIN seqs |-> [rows |-> [i \in DOMAIN seqs[k].rows |->
                    <<seqs[k].rows[i][1], 1, seqs[k].rows[i][2], 0>>], end |-> seqs[k].end]],
       dies |-> [i \in DOMAIN cover |->
                  [cu |-> 1, inl |-> up[i] # 0, up |-> up[i], name |-> "n", link |-> "", sp |-> 0, og |-> 0,
                   decl |-> 1, rs |-> ToSeq(Runs(cover[i])), cf |-> 0, cl |-> 0, cx |-> 0]]]

At(a) == LET S == {o \in map : o[1] <= a /\ a < o[2]} IN IF S = {} THEN 0 ELSE (CHOOSE o \in S : TRUE)[3]
LineAt(a) == LET D == {x \in DOMAIN lines : x <= a}
             IN IF D = {} THEN 0 ELSE lines[CHOOSE x \in D : \A y \in D : y <= x]

MapDisjoint == \A o, q \in map : o # q => o[2] <= q[1] \/ q[2] <= o[1]
MapAnswers == (ph = "fill" /\ todo = {}) => \A a \in Points : At(a) = Innermost(Db, a)
LinesAnswer == (ph = "fill" /\ left = {}) =>
  \A a \in 0..N : LineAt(a) = (IF Row(Db, a) = <<>> THEN 0 ELSE Row(Db, a)[1][3])
(* The chain: functions around one another, from the innermost to one that is not inlined. *)
Chains == ph = "fill" =>
  \A a \in Points :
    LET n == Nest(Db, a)
    IN /\ n = <<>> <=> \A i \in DOMAIN cover : a \notin cover[i]
       /\ n # <<>> => up[n[Len(n)]] = 0
       /\ \A k \in 2..Len(n) : up[n[k - 1]] = n[k]
       /\ {n[k] : k \in DOMAIN n} = Holding(Db, a)
=============================================================================
