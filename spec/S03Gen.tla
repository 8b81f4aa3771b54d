-------------------------------- MODULE S03Gen -------------------------------
EXTENDS S03MC, Json
Emit == n = MaxOps => PrintT("@@" \o ToJson([B |-> SetToSeq(B), 
   t |-> SetToSeq({<<k[1], k[2], taken[k]>> : k \in DOMAIN taken}),
   n |-> SetToSeq({<<k, nottaken[k]>> : k \in DOMAIN nottaken})]))
=============================================================================
