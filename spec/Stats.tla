--------------------------------- MODULE Stats -------------------------------
(* Statistics of runs: counters by name, and counters keyed by kind.          *)
EXTENDS Counters
Tables == {"edges", "weights", "merges"}
Zero(F) == [n |-> [f \in F |-> 0], edges |-> NoCounts, weights |-> NoCounts, merges |-> NoCounts]
AddStats(a, b) == [n |-> [f \in DOMAIN a.n |-> a.n[f] + b.n[f]], edges |-> Plus(a.edges, b.edges),
                   weights |-> Plus(a.weights, b.weights), merges |-> Plus(a.merges, b.merges)]
Incremented(a, f, w) == [a EXCEPT !.n[f] = @ + 1, !.n[f \o "w"] = @ + w]
(* ---- how they are described: the numbers of each part, in order ---- *)
Some(x) == IF x > 0 THEN <<x>> ELSE << >>
Profile(a) == <<a.n.parsed, a.n.mmaps, a.n.br>>
Maps(a) == <<a.n.hotf>> \o Some(a.n.dup) \o Some(a.n.nosym)
Disasm(a) == <<a.n.cnd, a.n.cndw, a.n.may, a.n.mayw, a.n.cant, a.n.cantw>>
Clones(a) == <<a.n.paths, a.n.bbs, a.n.bytes, a.n.gain>>
CfgLines(a) == <<<<a.n.hotb>>, <<a.n.cfgs>>, <<a.n.nodes>>, <<a.n.pads>>, <<a.n.empty>>, <<Total(a.edges)>>, <<Total(a.weights)>>>>
               \o (IF a.n.same > 0 THEN <<<<a.n.same>>>> ELSE << >>)
(* Shares in hundredths of a per cent, rounded. *)
AreShares(s, b) == LET tot == Total(b)
                       D(x) == IF x < 0 THEN -x ELSE x
                   IN tot = 0 \/ ({s[i][1] : i \in DOMAIN s} = DOMAIN b
                                  /\ \A i \in DOMAIN s : 2 * D(s[i][2] * tot - 10000 * b[s[i][1]]) <= tot + 1)
=============================================================================
