------------------------------- MODULE R11Trace ------------------------------
(* Validates how statistics were combined and described.                      *)
EXTENDS Stats, TraceLib
VARIABLES l, s
tvars == <<l, s>>
Rd(o) == [n |-> o.n, edges |-> FromPairs(o.edges), weights |-> FromPairs(o.weights), merges |-> FromPairs(o.merges)]
(* entries of zero may be absent *)
NZ(b) == [k \in {x \in DOMAIN b : b[x] # 0} |-> b[k]]
Once(q) == Cardinality({q[i][1] : i \in DOMAIN q}) = Len(q)
Is(r, a) == /\ r.n = a.n /\ \A t \in Tables : Once(r[t]) /\ NZ(FromPairs(r[t])) = NZ(a[t])
            /\ r.te = Total(a.edges) /\ r.tw = Total(a.weights)
Become(t, a) == Is(t.r, a) /\ s' = [s EXCEPT ![t.i] = a]
Op(t) ==
  CASE t.op \in {"add", "copyadd"} -> Become(t, AddStats(s[t.i], s[t.j]))
    [] t.op = "inc" -> Become(t, Incremented(s[t.i], <<"cnd", "may", "cant">>[t.j], t.w))
    [] t.op = "tell" ->
         LET a == s[t.i] IN
         /\ Become(t, a) /\ t.whole /\ t.profile = Profile(a) /\ t.bb = Maps(a) /\ t.dis = Disasm(a) /\ t.clone = Clones(a)
         /\ [i \in DOMAIN t.cfg |-> t.cfg[i].n] = CfgLines(a)
         /\ AreShares(t.cfg[6].s, NZ(a.edges)) /\ AreShares(t.cfg[7].s, NZ(a.weights))
    [] OTHER -> FALSE
Step(t) ==
  CASE t.e = "Reset" -> s' = << >>
    [] t.e = "Run" -> Is(t.r, Rd(t.in)) /\ s' = Append(s, Rd(t.in))
    [] t.e = "Op" -> Op(t)
    [] OTHER -> FALSE
TInit == l = 1 /\ s = << >>
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
