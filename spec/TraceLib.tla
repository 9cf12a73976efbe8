------------------------------ MODULE TraceLib ------------------------------
(* Shared by all trace specifications: Runs is a batch of recorded          *)
(* histories; register r holds the furthest position reached in history r.  *)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
ASSUME \A r \in 1..Len(Runs) : TLCSet(r, 0)
TrackPos(r, i) == IF TLCGet(r) < i THEN TLCSet(r, i) ELSE TRUE
Rejected == {r \in 1..Len(Runs) : TLCGet(r) # Len(Runs[r].h) + 1}
AllAccepted == \/ Rejected = {}
               \/ /\ \A r \in Rejected : PrintT(<<"REJECTED", r, TLCGet(r)>>)
                  /\ FALSE
=============================================================================
