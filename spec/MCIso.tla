------------------------------- MODULE MCIso -------------------------------
EXTENDS Iso, Json
Emit == (Len(hist) = Depth /\ pubs # <<>>) => PrintT("BEH " \o ToJson(hist))
=============================================================================
