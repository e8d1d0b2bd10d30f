-------------------------- MODULE TracePairResults --------------------------
EXTENDS PairResults, TLCExt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i, l
E == Traces[i][l]
Tinit == /\ Init /\ i \in 1..Len(Traces) /\ l = 2
         /\ mono = (Traces[i][1].mono = 1) /\ reverb = (Traces[i][1].reverb = 1)
Observed ==
  \/ E.e = "wave0"  /\ Begin(E.c, [f |-> "wave", side |-> E.s, v |-> E.v, look |-> 0])
  \/ E.e = "wave1"  /\ End(E.c, "wave")
  \/ E.e = "sched0" /\ Begin(E.c, [f |-> "sched", v |-> E.v, force |-> E.force = 1])
  \/ E.e = "sched1" /\ End(E.c, "sched")
  \/ E.e = "rem0"   /\ Begin(E.c, [f |-> "rem"])
  \/ E.e = "rem1"   /\ End(E.c, "rem")
  \/ E.e = "read0"  /\ Begin(E.c, [f |-> "read"])
  \/ E.e = "read1"  /\ ReadEnd(E.c, E.b, E.r)
  \/ E.e = "pnote"  /\ Note
  \/ E.e = "quiet"  /\ Quiet /\ UNCHANGED vars
  \/ E.e = "fin"    /\ dir = E.d /\ src = E.s /\ rcv = E.t /\ biv = E.b /\ rvb = E.r /\ UNCHANGED vars
Tnext == l <= Len(Traces[i]) /\ i' = i
         /\ \/ Observed /\ l' = l + 1
            \/ l' = l /\ Silent
Tconstraint == /\ IF l > TLCGet(i) THEN TLCSet(i, l) ELSE TRUE
               /\ TLCGet(i) <= Len(Traces[i])
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Report == /\ PrintT(<<"BATCH", Len(Traces)>>)
          /\ \A k \in 1..Len(Traces) : TLCGet(k) <= Len(Traces[k]) => PrintT(<<"REJECT", k, TLCGet(k)>>)
=============================================================================
