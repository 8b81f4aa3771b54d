-------------------------------- MODULE S04Gen -------------------------------
(* Delivery orders of recorded histories. *)
EXTENDS S04MC, Json
VARIABLE hist
GInit == MCInit /\ hist = << >>
GNext == MCNext /\ hist' = IF buffer' \subseteq buffer /\ buffer' # buffer
                           THEN Append(hist, CHOOSE e \in buffer : e \notin buffer') ELSE hist
GSpec == GInit /\ [][GNext]_<<mcv, hist>>
Emit == (n = MaxEvents /\ buffer = {} /\ now = MaxTime) => PrintT("@@" \o ToJson(hist))
=============================================================================
