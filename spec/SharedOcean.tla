----------------------------- MODULE SharedOcean -----------------------------
(***************************************************************************)
(* The shared ocean is one atomic register. A calculation keeps the ocean    *)
(* that was current when it was requested, and uses nothing else.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Callers, Versions, Calcs,
          Torn,      \* mutation: an update first clears the register
          LateBind,  \* mutation: a calculation takes the ocean when it begins to execute
          Rebind     \* mutation: a calculation looks at the register in every step
None == 0
VARIABLES cur,      \* current ocean
          op,       \* calls in progress
          oc,       \* ocean of each calculation
          st,       \* no, queued, running, done
          uses,     \* oceans used by each calculation
          seen      \* last completed update, for the properties
vars == <<cur, op, oc, st, uses, seen>>
Idle == [f |-> "idle"]
Init == /\ cur = None /\ op = [c \in Callers |-> Idle] /\ oc = [k \in Calcs |-> None]
        /\ st = [k \in Calcs |-> "no"] /\ uses = [k \in Calcs |-> {}] /\ seen = None
Begin(c, o) == op[c] = Idle /\ op' = [op EXCEPT ![c] = o] /\ UNCHANGED <<cur, oc, st, uses, seen>>
Ended(f, v) == [f |-> "ended", was |-> f, v |-> v]
End(c, f, v) == op[c] = Ended(f, v) /\ op' = [op EXCEPT ![c] = Idle] /\ UNCHANGED <<cur, oc, st, uses, seen>>
Set(c) == /\ op[c].f = "set"
          /\ IF Torn /\ cur # None
             THEN cur' = None /\ UNCHANGED <<op, seen>>
             ELSE cur' = op[c].v /\ seen' = op[c].v /\ op' = [op EXCEPT ![c] = Ended("set", 1)]
          /\ UNCHANGED <<oc, st, uses>>
Clear(c) == /\ op[c].f = "clear" /\ cur' = None /\ seen' = None /\ op' = [op EXCEPT ![c] = Ended("clear", 1)]
            /\ UNCHANGED <<oc, st, uses>>
Get(c) == /\ op[c].f = "get" /\ op' = [op EXCEPT ![c] = Ended("get", cur)] /\ UNCHANGED <<cur, oc, st, uses, seen>>
Request(c) == /\ op[c].f = "upd" /\ st[op[c].v] = "no"
              /\ st' = [st EXCEPT ![op[c].v] = "queued"] /\ oc' = [oc EXCEPT ![op[c].v] = cur]
              /\ op' = [op EXCEPT ![c] = Ended("upd", 1)] /\ UNCHANGED <<cur, uses, seen>>
(* a calculation is seen to use an ocean *)
Use(k, v) == /\ st[k] \in {"queued", "running"} /\ v # None
             /\ v = (IF Rebind \/ (LateBind /\ st[k] = "queued") THEN cur ELSE oc[k])
             /\ st' = [st EXCEPT ![k] = "running"]
             /\ oc' = IF LateBind THEN [oc EXCEPT ![k] = v] ELSE oc
             /\ uses' = [uses EXCEPT ![k] = @ \cup {v}] /\ UNCHANGED <<cur, op, seen>>
Finish(k) == st[k] = "running" /\ st' = [st EXCEPT ![k] = "done"] /\ UNCHANGED <<cur, op, oc, uses, seen>>
Silent == \E c \in Callers : Set(c) \/ Clear(c) \/ Get(c) \/ Request(c)
Next == \/ Silent
        \/ \E c \in Callers, v \in Versions :
              v > cur /\ (\A d \in Callers : op[d].f = "set" => op[d].v < v) /\ Begin(c, [f |-> "set", v |-> v])
        \/ \E c \in Callers : Begin(c, [f |-> "get"])
        \/ \E c \in Callers : (\A k \in Calcs : st[k] = "no") /\ (\A d \in Callers : op[d].f # "upd") /\ Begin(c, [f |-> "clear"])
        \/ \E c \in Callers, k \in Calcs : cur # None /\ st[k] = "no" /\ (\A d \in Callers : op[d].f \notin {"upd", "clear"})
                                           /\ Begin(c, [f |-> "upd", v |-> k])
        \/ \E k \in Calcs, v \in Versions : Use(k, v)
        \/ \E k \in Calcs : Finish(k)
        \/ \E c \in Callers : op[c].f = "ended" /\ op' = [op EXCEPT ![c] = Idle] /\ UNCHANGED <<cur, oc, st, uses, seen>>
(* properties *)
OneOcean == \A k \in Calcs : Cardinality(uses[k]) <= 1
(* what is read is the update that was completed last *)
Latest == [][\A c \in Callers : op[c].f = "get" /\ op'[c].f = "ended" => op'[c].v = seen]_vars
(* the ocean of a calculation is the one that was current at its request *)
AtRequest == [][\A k \in Calcs : uses'[k] # uses[k] => uses'[k] = {oc[k]}]_vars
=============================================================================
