-------------------------------- MODULE S05Gen -------------------------------
EXTENDS S05MC, Json
Emit == (base[1] # -1 /\ base[2] # -1) => PrintT("@@" \o ToJson([all |-> all, evs |-> evs, base |-> base]))
=============================================================================
