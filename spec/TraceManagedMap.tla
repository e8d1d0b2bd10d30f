--------------------------- MODULE TraceManagedMap ---------------------------
EXTENDS ManagedMap, TLCExt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i, l
E == Traces[i][l]
Tinit == Init /\ i \in 1..Len(Traces) /\ l = 1
Observed ==
  \/ E.e = "add0"  /\ Begin(E.c, [f |-> "add", k |-> E.k, o |-> E.o])
  \/ E.e = "add1"  /\ End(E.c, "add", E.r)
  \/ E.e = "rem0"  /\ Begin(E.c, [f |-> "rem", k |-> E.k])
  \/ E.e = "rem1"  /\ End(E.c, "rem", E.r)
  \/ E.e = "find0" /\ Begin(E.c, [f |-> "find", k |-> E.k])
  \/ E.e = "find1" /\ End(E.c, "find", E.r)
  \/ E.e = "list0" /\ Begin(E.c, [f |-> "list"])
  \/ E.e = "list1" /\ ListEnd(E.c, E.r)
  \/ E.e = "ladd0" /\ Begin(E.c, [f |-> "ladd", k |-> E.k])
  \/ E.e = "ladd1" /\ End(E.c, "ladd", 0)
  \/ E.e = "lrem0" /\ Begin(E.c, [f |-> "lrem", k |-> E.k])
  \/ E.e = "lrem1" /\ End(E.c, "lrem", 0)
  \/ E.e = "note"  /\ Note(E.c, E.x, E.f, E.k, {E.o[n] : n \in DOMAIN E.o})
  \/ E.e = "inst"  /\ Instance(E.v)
  \/ E.e = "reset" /\ Reset
(* automatic keys: take the one that the caller will be told *)
NextResult(c) == LET s == {n \in l..Len(Traces[i]) : Traces[i][n].e = "add1" /\ Traces[i][n].c = c}
                 IN IF s = {} THEN 0 ELSE Traces[i][CHOOSE n \in s : \A m \in s : n <= m].r
TSilent(c) == \/ AddFail(c)
              \/ Begun(c, "add") /\ LET k == NextResult(c) IN k \in Keys /\ AddStart(c, k)
              \/ AddEnd(c) \/ RemFail(c) \/ RemStart(c) \/ RemEnd(c)
              \/ Find(c) \/ List(c) \/ LAdd(c) \/ LRem(c)
Tnext == l <= Len(Traces[i]) /\ i' = i
         /\ \/ Observed /\ l' = l + 1
            \/ l' = l /\ \E c \in Callers : TSilent(c)
Tconstraint == /\ IF l > TLCGet(i) THEN TLCSet(i, l) ELSE TRUE
               /\ TLCGet(i) <= Len(Traces[i])
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Report == /\ PrintT(<<"BATCH", Len(Traces)>>)
          /\ \A k \in 1..Len(Traces) : TLCGet(k) <= Len(Traces[k]) => PrintT(<<"REJECT", k, TLCGet(k)>>)
=============================================================================
