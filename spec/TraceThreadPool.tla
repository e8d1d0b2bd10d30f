--------------------------- MODULE TraceThreadPool ---------------------------
(* Checks that recorded executions of the real pool are behaviours of       *)
(* ThreadPool.  One initial state per trace; silent steps are free.          *)
EXTENDS ThreadPool, TLC, TLCExt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i, l
tvars == <<vars, i, l>>
E == Traces[i][l]
More == l <= Len(Traces[i])
Tinit == Init /\ i \in 1..Len(Traces) /\ l = 1

Observed ==
  \/ E.e = "pool"   /\ Create(E.p, E.w)
  \/ E.e = "mk0"    /\ Make0(E.t)
  \/ E.e = "mk1"    /\ Make1(E.t, E.id)
  \/ E.e = "drop0"  /\ Drop0(E.t)
  \/ E.e = "drop1"  /\ Drop1(E.t)
  \/ E.e = "sub0"   /\ Submit0(E.t, E.p)
  \/ E.e = "sub1"   /\ Submit1(E.t)
  \/ E.e = "run"    /\ Run(E.t)
  \/ E.e = "end"    /\ End(E.t)
  \/ E.e = "dtor0"  /\ Destroy0(E.p)
  \/ E.e = "dtor1"  /\ Destroy1(E.p)
  \/ E.e = "reset0" /\ Reset0(E.p, E.q, E.w)
  \/ E.e = "reset1" /\ (IF E.p = 0 THEN UNCHANGED vars ELSE Destroy1(E.p))
  \/ E.e = "inst"   /\ Instance(E.v)
  \/ E.e = "obs0"   /\ Look0(E.c)
  \/ E.e = "obs1"   /\ Look1(E.c, E.v)
  \/ E.e = "wait0"  /\ Wait0(E.c, E.max)
  \/ E.e = "wait1"  /\ Wait1(E.c, E.thr = 1, E.el)
  \/ E.e = "fin"    /\ (\A t \in Tasks : home[t] = E.p => st[t] \in {"running", "ended", "retired"}) /\ UNCHANGED vars

Tnext == More /\ \/ Observed /\ l' = l + 1 /\ i' = i
                 \/ Silent /\ l' = l /\ i' = i
(* remember the longest accepted prefix; stop once a trace is accepted *)
Tconstraint == /\ IF l > TLCGet(i) THEN TLCSet(i, l) ELSE TRUE
               /\ TLCGet(i) <= Len(Traces[i])
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Report == /\ PrintT(<<"BATCH", Len(Traces)>>)
          /\ \A k \in 1..Len(Traces) : TLCGet(k) <= Len(Traces[k]) => PrintT(<<"REJECT", k, TLCGet(k)>>)
Tinvariant == UniqueIds /\ AtMostWidth /\ DeadIsDead /\ ActiveExact
=============================================================================
