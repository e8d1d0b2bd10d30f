--------------------------- MODULE TracePairWorld ---------------------------
EXTENDS PairWorld, TLCExt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i, l
E == Traces[i][l]
Tinit == /\ Init /\ i \in 1..Len(Traces) /\ l = 2
         /\ id = [o \in Objects |-> IF o <= Len(Traces[i][1].id) THEN Traces[i][1].id[o] ELSE 1]
Set(q) == {<<q[n][1], q[n][2]>> : n \in DOMAIN q}
(* entry of the final state: source, receiver, calculation of each side, combined, time series *)
Holding(x) ==
   LET p == <<x[1], x[2]>> IN
   /\ p \in pairs /\ Holds(p, 1, x[3]) /\ Holds(p, 2, x[4])
   /\ (x[5] = 1) = (x[3] # None /\ x[4] # None)
   /\ x[6] = x[5]
Observed ==
  \/ E.e = "add0"  /\ Begin(E.c, [f |-> "add", o |-> E.o])
  \/ E.e = "add1"  /\ End(E.c, "add", E.v)
  \/ E.e = "rem0"  /\ Begin(E.c, [f |-> "rem", o |-> E.o])
  \/ E.e = "rem1"  /\ End(E.c, "rem", 1)
  \/ E.e = "upd0"  /\ Begin(E.c, [f |-> "upd", o |-> E.o, v |-> E.k])
  \/ E.e = "upd1"  /\ End(E.c, "upd", 1)
  \/ E.e = "find0" /\ Begin(E.c, [f |-> "find", s |-> E.s, r |-> E.r])
  \/ E.e = "find1" /\ End(E.c, "find", Set(E.q))
  \/ E.e = "list0" /\ Begin(E.c, [f |-> "list"])
  \/ E.e = "list1" /\ End(E.c, "list", Set(E.q))
  \/ E.e = "quiet" /\ Quiet /\ UNCHANGED vars
  \/ E.e = "fin"   /\ Len(E.q) = Cardinality(pairs) /\ (\A n \in DOMAIN E.q : Holding(E.q[n])) /\ UNCHANGED vars
Tnext == l <= Len(Traces[i]) /\ i' = i
         /\ \/ Observed /\ l' = l + 1
            \/ l' = l /\ Silent
Tconstraint == /\ IF l > TLCGet(i) THEN TLCSet(i, l) ELSE TRUE
               /\ TLCGet(i) <= Len(Traces[i])
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Report == /\ PrintT(<<"BATCH", Len(Traces)>>)
          /\ \A k \in 1..Len(Traces) : TLCGet(k) <= Len(Traces[k]) => PrintT(<<"REJECT", k, TLCGet(k)>>)
=============================================================================
