-------------------------------- MODULE S02Gen -------------------------------
EXTENDS S02MC, Json
Emit == (Len(done) = MaxOps \/ dup) => PrintT("@@" \o ToJson(lbr))
=============================================================================
