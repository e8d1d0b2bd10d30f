-------------------------- MODULE TraceWaveResults --------------------------
EXTENDS WaveResults, TLCExt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i, l
E == Traces[i][l]
Cfg == Traces[i][1]
Tinit == /\ Init /\ i \in 1..Len(Traces) /\ l = 2
         /\ xs = [s \in Sensors |-> IF s <= Traces[i][1].s THEN 1..Traces[i][1].x ELSE {}]
Observed ==
  \/ E.e = "upd0"  /\ Begin(E.c, [f |-> "upd", s |-> E.s, k |-> E.k])
  \/ E.e = "upd1"  /\ End(E.c, "upd")
  \/ E.e = "ab0"   /\ Begin(E.c, [f |-> "abort", k |-> E.k])
  \/ E.e = "ab1"   /\ End(E.c, "abort")
  \/ E.e = "note"  /\ Note(E.s, E.k, E.x)
  \/ E.e = "pnote" /\ PairNote
  \/ E.e = "quiet" /\ Quiet /\ UNCHANGED vars
  \/ E.e = "done"  /\ (E.v = 1 <=> st[E.k] = "done") /\ UNCHANGED vars
  \/ E.e = "dir"   /\ (IF pdir = None THEN Len(E.ks) = 0 ELSE \E n \in DOMAIN E.ks : E.ks[n] = pdir) /\ UNCHANGED vars
(* only calculations which are going to be heard deliver *)
Heard(k) == \E n \in l..Len(Traces[i]) : Traces[i][n].e = "note" /\ Traces[i][n].k = k
TSilent == \/ \E c \in Callers : Start(c) \/ Abort(c)
           \/ \E k \in Calcs : (st[k] = "run" /\ Heard(k) /\ Deliver(k)) \/ Take(k)
Tnext == l <= Len(Traces[i]) /\ i' = i
         /\ \/ Observed /\ l' = l + 1
            \/ l' = l /\ TSilent
Tview == <<view, i, l>>
Tconstraint == /\ IF l > TLCGet(i) THEN TLCSet(i, l) ELSE TRUE
               /\ TLCGet(i) <= Len(Traces[i])
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Report == /\ PrintT(<<"BATCH", Len(Traces)>>)
          /\ \A k \in 1..Len(Traces) : TLCGet(k) <= Len(Traces[k]) => PrintT(<<"REJECT", k, TLCGet(k)>>)
=============================================================================
