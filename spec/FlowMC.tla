-------------------------------- MODULE FlowMC -------------------------------
(* Executions of small programs, the branches they record, and the           *)
(* fall-throughs inferred from those.                                        *)
EXTENDS Cfg
CONSTANTS Shapes, NF, Gaps, Ends, MostSteps, MostTimes
(* How a block ends: with a branch always taken, a conditional branch, a     *)
(* call, or by running on.                                                   *)
AllEnds == {"jump", "cond", "call", "run"}
S1 == {<<1>>, <<2>>, <<1, 1>>, <<1, 2, 1>>}
S2 == {<<1, 1>>, <<2, 1, 1>>}
S3 == {<<1, 2>>, <<1, 1, 1>>, <<2, 1, 1, 1>>}
S4 == {<<1, 1, 2, 1, 1>>, <<2, 1, 3>>, <<1, 1>>}
VARIABLES prog, H, kind, at, back, taken, still, steps, n
flow == <<prog, H, kind, at, back, taken, still, steps, n>>
Out == 0
Off(sh, i) == SumSeq(SubSeq(sh, 1, i - 1), LAMBDA x : x)
RECURSIVE Place(_, _, _, _)
Place(shs, gaps, i, a0) ==
  IF i > Len(shs) THEN << >>
  ELSE LET a == a0 + gaps[i] IN
       <<[addr |-> a, blocks |-> [j \in DOMAIN shs[i].s |->
            [id |-> j - 1, off |-> Off(shs[i].s, j), size |-> shs[i].s[j], ret |-> FALSE, tail |-> FALSE, eh |-> FALSE,
             ft |-> shs[i].k[j] # "jump", ib |-> FALSE]]]>>
       \o Place(shs, gaps, i + 1, a + Off(shs[i].s, Len(shs[i].s) + 1))
(* What runs on or calls is not the last of its function.                    *)
Funcs == UNION {{f \in {[s |-> s, k |-> k] : k \in [DOMAIN s -> Ends]} : f.k[Len(f.s)] = "jump"} : s \in Shapes}
Prog(shs, gaps) == LET fs == Place(shs, gaps, 1, 8)
                   IN [funcs |-> fs, syms |-> [i \in DOMAIN fs |-> [name |-> "f" \o ToString(i - 1), addr |-> fs[i].addr, size |-> 1,
                                                                    func |-> TRUE, sec |-> ".text", uniq |-> FALSE, glob |-> TRUE]]]
Kinds(shs) == FoldLeft(LAMBDA a, x : a \o x.k, << >>, shs)
Start(shs, gaps) == /\ prog = Prog(shs, gaps) /\ kind = Kinds(shs)
                    /\ H = Handles(prog, FuncIds(prog))
                    /\ at = Out /\ back = Out /\ taken = NoCounts /\ still = NoCounts /\ steps = NoCounts /\ n = 0
Init == \E shs \in [1 .. NF -> Funcs], gaps \in [1 .. NF -> Gaps] : Start(shs, gaps)
Far == 1          \* an address of other code
Last1(b) == H[b].e - 1
May == n < MostSteps
More(k) == May /\ n' = n + k /\ UNCHANGED <<prog, H, kind>>
(* k times at once, to have counts above one *)
Enter(b, k) == at = Out /\ back = Out /\ May /\ at' = b /\ taken' = Inc(taken, <<Far, H[b].a>>, 1) /\ n' = n + k /\ UNCHANGED <<prog, H, kind, back, still, steps>>
Leave(b) == at = b /\ b # Out /\ kind[b] \in {"jump", "cond"} /\ at' = Out /\ taken' = Inc(taken, <<Last1(b), Far>>, 1)
            /\ UNCHANGED <<prog, H, kind, back, still, steps, n>>
Jump(b, c) == at = b /\ b # Out /\ More(1) /\ kind[b] \in {"jump", "cond"} /\ at' = c /\ taken' = Inc(taken, <<Last1(b), H[c].a>>, 1) /\ UNCHANGED <<back, still, steps>>
Run(b) == /\ at = b /\ b # Out /\ kind[b] \in {"run", "cond"} /\ at' = b + 1
          /\ steps' = Inc(steps, <<b, b + 1>>, 1)
          /\ still' = IF kind[b] = "cond" THEN Inc(still, Last1(b), 1) ELSE still
          /\ UNCHANGED <<prog, H, kind, back, taken, n>>
(* A call at the end of a block comes back to the next; one inside comes back*)
(* to the block itself.                                                      *)
Call(b) == /\ at = b /\ b # Out /\ kind[b] = "call" /\ at' = b + 1
           /\ taken' = Inc(Inc(taken, <<Last1(b), Far>>, 1), <<Far, H[b + 1].a>>, 1)
           /\ UNCHANGED <<prog, H, kind, back, still, steps, n>>
Inside(b) == /\ at = b /\ b # Out /\ H[b].e - H[b].a > 1 /\ More(1) /\ at' = b
             /\ taken' = Inc(Inc(taken, <<H[b].a, Far>>, 1), <<Far, H[b].a + 1>>, 1)
             /\ UNCHANGED <<back, still, steps>>
Times(k) == /\ at = Out /\ taken # NoCounts /\ k > 1 /\ back = Out /\ back' = k /\ UNCHANGED <<prog, H, kind, at, n>>
            /\ taken' = [p \in DOMAIN taken |-> k * taken[p]] /\ still' = [p \in DOMAIN still |-> k * still[p]]
            /\ steps' = [p \in DOMAIN steps |-> k * steps[p]]
FlowNext == \/ \E b \in DOMAIN H : Enter(b, 1) \/ Leave(b) \/ Run(b) \/ Call(b) \/ Inside(b) \/ \E c \in DOMAIN H : Jump(b, c)
            \/ \E k \in 2 .. MostTimes : Times(k)
FlowSpec == Init /\ [][FlowNext]_flow

Taken == SetToSeq({<<p[1], p[2], taken[p]>> : p \in DOMAIN taken})
Still == SetToSeq({<<a, still[a]>> : a \in DOMAIN still})
(* The steps a table of fall-throughs stands for.                            *)
Spread(T) == FoldSet(LAMBDA p, m : LET i == Find(H, p[1], "T") j == Find(H, p[2], "F")
                                   IN FoldLeft(LAMBDA x, k : Inc(x, <<k, k + 1>>, T[p]), m, [k \in 1 .. j - i |-> i + k - 1]),
                     NoCounts, DOMAIN T)
(* R07: of whole executions, exactly the steps taken are inferred, whether   *)
(* ends of blocks can be told (size 1) or not.                               *)
Exact == at = Out => Spread(Inferred(H, 1, Taken, Still)) = steps /\ Spread(Inferred(H, 0, Taken, Still)) = steps
(* And of any part of one, nothing that cannot be walked.                    *)
Walkable == \A z \in {0, 1} : LET T == Inferred(H, z, Taken, Still) IN
            \A p \in DOMAIN T : /\ T[p] > 0
                                /\ LET i == Find(H, p[1], "T") j == Find(H, p[2], "F") IN i < j /\ CanFall(H, i, j)
=============================================================================
