-------------------------------- MODULE PipeMC -------------------------------
(* Every run ends as Pipe's definitions say.                                  *)
EXTENDS Pipe
(* ---- the run, step by step ---- *)
VARIABLES opt, pc, at, used, parts, out, told, reports
pv == <<opt, pc, at, used, parts, out, told, reports>>
Start == pc = "start" /\ at = 0 /\ used = {} /\ parts = <<0, 0, 0, 0>> /\ out = FALSE /\ told = << >> /\ reports = 0
Fail == pc' = "stop" /\ UNCHANGED <<opt, at, used, parts, out, told, reports>>
To(s) == pc' = s
Begin == pc = "start" /\ IF Refused(opt) THEN Fail
                         ELSE To("binary") /\ told' = (IF Watched(opt) THEN <<"start">> ELSE told)
                              /\ UNCHANGED <<opt, at, used, parts, out, reports>>
Binary == pc = "binary" /\ IF opt.bin THEN To("read") /\ parts' = [parts EXCEPT ![1] = 100] /\ UNCHANGED <<opt, at, used, out, told, reports>>
                           ELSE Fail
Next1 == LET q == Read(opt) IN
  /\ pc = "read" /\ at < Len(q)
  /\ IF q[at + 1].state = "gone" THEN Fail
     ELSE at' = at + 1 /\ used' = (IF q[at + 1].state = "ok" /\ q[at + 1].maps THEN used \cup {at + 1} ELSE used)
          /\ UNCHANGED <<opt, pc, parts, out, told, reports>>
Enough == pc = "read" /\ at = Len(Read(opt))
          /\ IF used = {} THEN Fail ELSE To("map") /\ parts' = [parts EXCEPT ![2] = 50] /\ UNCHANGED <<opt, at, used, out, told, reports>>
Map == pc = "map" /\ To("graph") /\ parts' = [parts EXCEPT ![2] = 60] /\ UNCHANGED <<opt, at, used, out, told, reports>>
Graph == pc = "graph" /\ IF opt.mod \/ ~opt.built THEN Fail
                         ELSE To("layout") /\ parts' = [parts EXCEPT ![2] = 100] /\ UNCHANGED <<opt, at, used, out, told, reports>>
LayOut == pc = "layout" /\ To("write") /\ parts' = [parts EXCEPT ![3] = 100] /\ UNCHANGED <<opt, at, used, out, told, reports>>
Write == pc = "write" /\ To("report") /\ parts' = [parts EXCEPT ![4] = 100] /\ out' = TRUE /\ UNCHANGED <<opt, at, used, told, reports>>
Report == pc = "report" /\ To("stop") /\ reports' = (IF opt.api = 2 THEN 0 ELSE reports + 1) /\ UNCHANGED <<opt, at, used, parts, out, told>>
Stop == pc = "stop" /\ To("end") /\ told' = (IF told # << >> THEN Append(told, "stop") ELSE told) /\ UNCHANGED <<opt, at, used, parts, out, reports>>
Next == Begin \/ Binary \/ Next1 \/ Enough \/ Map \/ Graph \/ LayOut \/ Write \/ Report \/ Stop
(* ---- all runs ---- *)
CONSTANTS Longest, LongestOld
Recording == {f \in [type : {"-", "LBR", "SPE", "FREQ"}, state : {"ok", "bad", "gone"}, maps : BOOLEAN] : f.state # "ok" => ~f.maps}
Old == {f \in Recording : f.type = "-"}
Seqs(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
MCInit == /\ opt \in [api : 0 .. 2, type : {"LBR", "SPE", "FREQ"}, files : Seqs(Recording, Longest), dep : Seqs(Old, LongestOld),
                      bin : BOOLEAN, http : BOOLEAN, mod : BOOLEAN, built : BOOLEAN]
          /\ opt.api # 1 => opt.type = "LBR"
          /\ Start
MCSpec == MCInit /\ [][Next]_pv /\ WF_pv(Next)
AtEnd == pc = "end" =>
  /\ out = Succeeds(opt) /\ parts = Reached(opt)
  /\ told = (IF Watched(opt) THEN <<"start", "stop">> ELSE << >>)
  /\ reports = (IF Succeeds(opt) /\ opt.api # 2 THEN 1 ELSE 0)
  /\ Succeeds(opt) => used = Used(opt)
(* Files are left by a run that has done everything, and by no other.         *)
NoHalf == /\ out => parts = <<100, 100, 100, 100>>
          /\ reports > 0 => out
          /\ Percent(parts) = 100 <=> parts = <<100, 100, 100, 100>>
Forward == [][Percent(parts') >= Percent(parts) /\ (out => out')]_pv
Ends == <>(pc = "end")
=============================================================================
