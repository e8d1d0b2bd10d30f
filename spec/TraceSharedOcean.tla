-------------------------- MODULE TraceSharedOcean --------------------------
EXTENDS SharedOcean, TLCExt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i, l
E == Traces[i][l]
Tinit == Init /\ i \in 1..Len(Traces) /\ l = 2
Observed ==
  \/ E.e = "set0" /\ Begin(E.c, [f |-> "set", v |-> E.v])
  \/ E.e = "set1" /\ End(E.c, "set", 1)
  \/ E.e = "clr0" /\ Begin(E.c, [f |-> "clear"])
  \/ E.e = "clr1" /\ End(E.c, "clear", 1)
  \/ E.e = "get0" /\ Begin(E.c, [f |-> "get"])
  \/ E.e = "get1" /\ End(E.c, "get", E.v)
  \/ E.e = "upd0" /\ Begin(E.c, [f |-> "upd", v |-> E.k])
  \/ E.e = "upd1" /\ End(E.c, "upd", 1)
  \/ E.e = "use"  /\ Use(E.k, E.v)
Tnext == l <= Len(Traces[i]) /\ i' = i
         /\ \/ Observed /\ l' = l + 1
            \/ l' = l /\ Silent
Tconstraint == /\ IF l > TLCGet(i) THEN TLCSet(i, l) ELSE TRUE
               /\ TLCGet(i) <= Len(Traces[i])
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Report == /\ PrintT(<<"BATCH", Len(Traces)>>)
          /\ \A k \in 1..Len(Traces) : TLCGet(k) <= Len(Traces[k]) => PrintT(<<"REJECT", k, TLCGet(k)>>)
=============================================================================
