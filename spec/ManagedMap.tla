----------------------------- MODULE ManagedMap -----------------------------
(***************************************************************************)
(* The interface of a managed collection (managed/manager_template): one    *)
(* atomic map from keys to objects whose successful mutations are reported  *)
(* to the listeners that are registered when they take effect.  Calls of     *)
(* concurrent callers have a begin and an end; the effect happens in between.*)
(* With Auto = TRUE it is the platform manager: key 0 asks for a fresh key,  *)
(* larger than any that was ever accepted.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, Objects, Callers, Listeners, Auto

VARIABLES map,     \* key -> object (0: absent)
          lst,     \* registered listeners
          call,    \* caller -> pending call
          mut,     \* caller whose mutation is taking effect (0: none)
          pend,    \* listeners which have to be told about it
          top,     \* largest key ever accepted
          single   \* identity of the shared instance (0: not known)
vars == <<map, lst, call, mut, pend, top, single>>

Idle == [f |-> "idle"]
Init == /\ map = [k \in Keys |-> 0]
        /\ lst = {}
        /\ call = [c \in Callers |-> Idle]
        /\ mut = 0 /\ pend = {} /\ top = 0 /\ single = 0

Begin(c, r) == /\ call[c] = Idle
               /\ call' = [call EXCEPT ![c] = r @@ [s |-> "begun"]]
               /\ UNCHANGED <<map, lst, mut, pend, top, single>>
Done(c, res) == call' = [call EXCEPT ![c] = [s |-> "done", f |-> call[c].f, res |-> res]]
End(c, f, res) == /\ call[c].s = "done" /\ call[c].f = f /\ call[c].res = res
                  /\ call' = [call EXCEPT ![c] = Idle]
                  /\ UNCHANGED <<map, lst, mut, pend, top, single>>
Begun(c, f) == "s" \in DOMAIN call[c] /\ call[c].s = "begun" /\ call[c].f = f

(* add: duplicate keys are refused *)
AddFail(c) == /\ Begun(c, "add") /\ mut = 0
              /\ call[c].k \in Keys
              /\ map[call[c].k] # 0
              /\ Done(c, -1)
              /\ UNCHANGED <<map, lst, mut, pend, top, single>>
AddStart(c, k) == /\ Begun(c, "add") /\ mut = 0
                  /\ IF call[c].k = 0 /\ Auto THEN k > top ELSE k = call[c].k
                  /\ map[k] = 0
                  /\ map' = [map EXCEPT ![k] = call[c].o]
                  /\ call' = [call EXCEPT ![c].s = "notify", ![c].k = k]
                  /\ mut' = c /\ pend' = lst
                  /\ top' = IF k > top THEN k ELSE top
                  /\ UNCHANGED <<lst, single>>
AddEnd(c) == /\ mut = c /\ call[c].f = "add" /\ pend = {}
             /\ Done(c, call[c].k)
             /\ mut' = 0
             /\ UNCHANGED <<map, lst, pend, top, single>>
(* remove: the object disappears after the notifications *)
RemFail(c) == /\ Begun(c, "rem") /\ mut = 0
              /\ map[call[c].k] = 0
              /\ Done(c, 0)
              /\ UNCHANGED <<map, lst, mut, pend, top, single>>
RemStart(c) == /\ Begun(c, "rem") /\ mut = 0
               /\ map[call[c].k] # 0
               /\ call' = [call EXCEPT ![c].s = "notify"]
               /\ mut' = c /\ pend' = lst
               /\ UNCHANGED <<map, lst, top, single>>
RemEnd(c) == /\ mut = c /\ call[c].f = "rem" /\ pend = {}
             /\ map' = [map EXCEPT ![call[c].k] = 0]
             /\ Done(c, 1)
             /\ mut' = 0
             /\ UNCHANGED <<lst, pend, top, single>>
(* a notification: by the mutating caller, with the object alive *)
Note(c, x, f, k, os) ==      \* os: objects that are alive and belong to key k
    /\ mut = c /\ call[c].f = f /\ call[c].k = k
    /\ x \in pend
    /\ map[k] \in os
    /\ pend' = pend \ {x}
    /\ UNCHANGED <<map, lst, call, mut, top, single>>

Find(c) == /\ Begun(c, "find")
           /\ Done(c, IF call[c].k \in Keys THEN map[call[c].k] ELSE 0)
           /\ UNCHANGED <<map, lst, mut, pend, top, single>>
Contents == {<<k, map[k]>> : k \in {x \in Keys : map[x] # 0}}
Sorted(s) == \A a, b \in DOMAIN s : a < b => s[a][1] < s[b][1]
List(c) == /\ Begun(c, "list")
           /\ Done(c, Contents)
           /\ UNCHANGED <<map, lst, mut, pend, top, single>>
ListEnd(c, l) == /\ Sorted(l)
                 /\ End(c, "list", {<<l[n][1], l[n][2]>> : n \in DOMAIN l})
LAdd(c) == /\ Begun(c, "ladd")
           /\ lst' = lst \cup {call[c].k}
           /\ Done(c, 0)
           /\ UNCHANGED <<map, mut, pend, top, single>>
LRem(c) == /\ Begun(c, "lrem")
           /\ call[c].k \notin pend
           /\ lst' = lst \ {call[c].k}
           /\ Done(c, 0)
           /\ UNCHANGED <<map, mut, pend, top, single>>
(* the shared instance *)
Instance(v) == /\ single \in {0, v} /\ single' = v
               /\ UNCHANGED <<map, lst, call, mut, pend, top>>
Reset == /\ \A c \in Callers : call[c] = Idle
         /\ map' = [k \in Keys |-> 0] /\ lst' = {} /\ top' = 0 /\ single' = 0
         /\ UNCHANGED <<call, mut, pend>>
Silent(c) == \/ AddFail(c) \/ \E k \in Keys : AddStart(c, k)
             \/ AddEnd(c) \/ RemFail(c) \/ RemStart(c) \/ RemEnd(c)
             \/ Find(c) \/ List(c) \/ LAdd(c) \/ LRem(c)
=============================================================================
