--------------------------- MODULE ManagedMapImpl ---------------------------
(* The lock based design of a managed collection; refines ManagedMap.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, Objects, Callers, Listeners, Auto,
          CheckUnlocked,    \* duplicate test before the write lock
          NotifyUnlocked,   \* notification after the write lock was released
          EraseFirst,       \* object removed before the notification
          KeyUnlocked       \* automatic key taken outside of the lock
VARIABLES map, lst, call, mut, pend, top, single, pc, wr, used, isnew, kk
avars == <<map, lst, call, mut, pend, top, single>>
vars == <<avars, pc, wr, used, isnew, kk>>
A == INSTANCE ManagedMap
Init == /\ A!Init
        /\ pc = [c \in Callers |-> "idle"] /\ wr = 0 /\ used = {}
        /\ isnew = [c \in Callers |-> TRUE] /\ kk = [c \in Callers |-> 0]
Go(c, p) == pc' = [pc EXCEPT ![c] = p]
Begin(c) == /\ pc[c] = "idle"
            /\ \/ \E k \in (IF Auto THEN Keys \cup {0} ELSE Keys), o \in Objects \ used :
                     /\ used' = used \cup {o}
                     /\ A!Begin(c, [f |-> "add", k |-> k, o |-> o])
               \/ \E k \in Keys : A!Begin(c, [f |-> "rem", k |-> k]) /\ used' = used
               \/ \E x \in Listeners : A!Begin(c, [f |-> "ladd", k |-> x]) /\ used' = used
               \/ \E x \in Listeners : A!Begin(c, [f |-> "lrem", k |-> x]) /\ used' = used
               \/ A!Begin(c, [f |-> "list"]) /\ used' = used
            /\ Go(c, "key")
            /\ UNCHANGED <<wr, isnew, kk>>
(* automatic key, under its own lock in the platform manager (one step) *)
Key(c) == /\ pc[c] = "key" /\ (call[c].f = "add" /\ call[c].k = 0 => top + 1 \in Keys)
          /\ IF call[c].f = "add" /\ call[c].k = 0
             THEN kk' = [kk EXCEPT ![c] = top + 1]
             ELSE kk' = [kk EXCEPT ![c] = IF call[c].f = "list" THEN 0 ELSE call[c].k]
          /\ Go(c, "check")
          /\ (KeyUnlocked \/ wr = 0)
          /\ wr' = IF KeyUnlocked THEN wr ELSE c
          /\ UNCHANGED <<avars, used, isnew>>
Check(c) == /\ pc[c] = "check"
            /\ IF call[c].f = "add" /\ CheckUnlocked
               THEN isnew' = [isnew EXCEPT ![c] = map[kk[c]] = 0] ELSE UNCHANGED isnew
            /\ Go(c, "lock")
            /\ wr' = IF wr = c /\ CheckUnlocked THEN 0 ELSE wr
            /\ UNCHANGED <<avars, used, kk>>
Lock(c) == /\ pc[c] = "lock" /\ wr \in {0, c}
           /\ wr' = c /\ Go(c, "act")
           /\ UNCHANGED <<avars, used, isnew, kk>>
Res(c, r) == call' = [call EXCEPT ![c] = [s |-> "done", f |-> call[c].f, res |-> r]]
Act(c) ==
  /\ pc[c] = "act"
  /\ LET k == kk[c]
         new == IF CheckUnlocked THEN isnew[c] ELSE map[k] = 0 IN
     CASE call[c].f = "add" /\ ~new ->
            Res(c, -1) /\ Go(c, "unlock") /\ UNCHANGED <<map, lst, mut, pend, top>>
       [] call[c].f = "add" /\ new ->
            /\ map' = [map EXCEPT ![k] = call[c].o]
            /\ top' = IF k > top THEN k ELSE top
            /\ mut' = c /\ pend' = lst
            /\ call' = [call EXCEPT ![c].s = "notify", ![c].k = k]
            /\ Go(c, "notify") /\ UNCHANGED lst
       [] call[c].f = "rem" /\ map[k] = 0 ->
            Res(c, 0) /\ Go(c, "unlock") /\ UNCHANGED <<map, lst, mut, pend, top>>
       [] call[c].f = "rem" /\ map[k] # 0 ->
            /\ mut' = c /\ pend' = lst
            /\ map' = IF EraseFirst THEN [map EXCEPT ![k] = 0] ELSE map
            /\ call' = [call EXCEPT ![c].s = "notify"]
            /\ Go(c, "notify") /\ UNCHANGED <<lst, top>>
       [] call[c].f = "ladd" ->
            lst' = lst \cup {k} /\ Res(c, 0) /\ Go(c, "unlock") /\ UNCHANGED <<map, mut, pend, top>>
       [] call[c].f = "lrem" ->
            lst' = lst \ {k} /\ Res(c, 0) /\ Go(c, "unlock") /\ UNCHANGED <<map, mut, pend, top>>
       [] call[c].f = "list" ->
            Res(c, A!Contents) /\ Go(c, "unlock") /\ UNCHANGED <<map, lst, mut, pend, top>>
  /\ wr' = IF NotifyUnlocked THEN 0 ELSE wr
  /\ UNCHANGED <<single, used, isnew, kk>>
Notify(c) == /\ pc[c] = "notify"
             /\ IF pend # {} THEN
                  /\ \E x \in pend : pend' = pend \ {x}
                  /\ UNCHANGED <<map, lst, call, mut, top, single, pc>>
                ELSE
                  /\ mut' = 0
                  /\ map' = IF call[c].f = "rem" THEN [map EXCEPT ![call[c].k] = 0] ELSE map
                  /\ Res(c, IF call[c].f = "rem" THEN 1 ELSE call[c].k)
                  /\ Go(c, "unlock")
                  /\ UNCHANGED <<lst, pend, top, single>>
             /\ UNCHANGED <<wr, used, isnew, kk>>
Unlock(c) == /\ pc[c] = "unlock"
             /\ wr' = (IF wr = c THEN 0 ELSE wr) /\ Go(c, "ret")
             /\ UNCHANGED <<avars, used, isnew, kk>>
Return(c) == /\ pc[c] = "ret"
             /\ A!End(c, call[c].f, call[c].res) /\ Go(c, "idle")
             /\ UNCHANGED <<wr, used, isnew, kk>>
Next == \E c \in Callers : Begin(c) \/ Key(c) \/ Check(c) \/ Lock(c) \/ Act(c) \/ Notify(c) \/ Unlock(c) \/ Return(c)
ANext == \E c \in Callers :
           \/ A!Silent(c)
           \/ \E f \in {"add", "rem", "ladd", "lrem"}, k \in Keys \cup Listeners \cup {0}, o \in Objects :
                A!Begin(c, [f |-> f, k |-> k]) \/ A!Begin(c, [f |-> f, k |-> k, o |-> o])
           \/ A!Begin(c, [f |-> "list"])
           \/ call[c] # A!Idle /\ "res" \in DOMAIN call[c] /\ A!End(c, call[c].f, call[c].res)
           \/ \E x \in Listeners : call[c] # A!Idle /\ "k" \in DOMAIN call[c] /\ A!Note(c, x, call[c].f, call[c].k, Objects)
Refines == [][ANext]_avars
(* the mutation in progress holds the object until its listeners know *)
ToldBeforeGone == \A c \in Callers : mut = c => map[call[c].k] # 0
=============================================================================
