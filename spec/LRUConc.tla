------------------------------ MODULE LRUConc ------------------------------
(* code -> spec for the synchronised cache: a recorded concurrent history is accepted if  *)
(* there is an order of its operations which respects the real-time order (ret before call) *)
(* and in which every reply is the reply of the sequential cache.                          *)
EXTENDS LRU, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, done, s
CInit == /\ h \in 1..Len(Trace)
         /\ done = {}
         /\ s = [cap |-> Trace[h].cap, q |-> <<>>]
Ops == Trace[h].ops
Minimal(i) == \A j \in 1..Len(Ops) : j \notin done /\ j # i => ~(Ops[j].ret < Ops[i].call)
Linearize(i) == /\ i \notin done
                /\ Minimal(i)
                /\ Ops[i].res = LruReply(s, Ops[i])
                /\ done' = done \cup {i}
                /\ s' = LruStep(s, Ops[i])
                /\ (done' = 1..Len(Ops) => PrintT(<<"LINEARIZED", h>>))
                /\ UNCHANGED h
CNext == \E i \in 1..Len(Ops) : Linearize(i)
CSpec == CInit /\ [][CNext]_<<h, done, s>>
StateOK == WellFormed(s)
=============================================================================
