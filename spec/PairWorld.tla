------------------------------ MODULE PairWorld ------------------------------
(***************************************************************************)
(* Sensors which are added, removed, replaced and updated from several       *)
(* threads while their calculations run. One addition or removal at a time;  *)
(* queries by source or receiver see only completed ones. When everything is *)
(* quiet, each pair has the results of the calculations started most         *)
(* recently for its two sensor objects; removed sensors leave no trace.      *)
(* Sensor 1 is source and receiver, 2 receives, 3 transmits.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Callers, Objects, Calcs,
          Early,     \* mutation: queries see additions in progress
          Stale,     \* mutation: removed pairs keep hearing and new ones take their data over
          Leave      \* mutation: removal forgets the pairs in which the sensor receives
Sensors == 1..3
Source == {1, 3}
Receiver == {1, 2}
AllPairs == Source \X Receiver
None == 0
VARIABLES
   id,      \* sensor of each object
   reg,     \* registered object of each sensor
   pairs,   \* pairs in the manager
   busy,    \* caller that is adding or removing
   last,    \* calculation started last for each object
   need,    \* per pair: calculations that its sides must end with
   may,     \* per pair: calculations from before its addition was complete, which may still arrive
   op
vars == <<id, reg, pairs, busy, last, need, may, op>>
Idle == [f |-> "idle"]
Rest == <<id, reg, pairs, busy, last, need, may>>
NoCalc == [p \in AllPairs |-> <<None, None>>]
Init == /\ reg = [s \in Sensors |-> None] /\ pairs = {} /\ busy = None
        /\ last = [o \in Objects |-> None] /\ need = NoCalc /\ may = [p \in AllPairs |-> <<{}, {}>>]
        /\ op = [c \in Callers |-> Idle]
Implied(p) == reg[p[1]] # None /\ reg[p[2]] # None
Begin(c, o) == op[c] = Idle /\ op' = [op EXCEPT ![c] = o] /\ UNCHANGED Rest
Ended(f, v) == [f |-> "ended", was |-> f, v |-> v]
End(c, f, v) == op[c] = Ended(f, v) /\ op' = [op EXCEPT ![c] = Idle] /\ UNCHANGED Rest
Step(c, o) == op' = [op EXCEPT ![c] = o]
(* addition of an object: refused if the sensor is present *)
AddBegin(c) ==
   /\ op[c].f = "add" /\ busy = None
   /\ LET o == op[c].o  s == id[o] IN
      IF reg[s] # None
      THEN Step(c, Ended("add", 0)) /\ UNCHANGED Rest
      ELSE /\ reg' = [reg EXCEPT ![s] = o] /\ busy' = c /\ Step(c, [op[c] EXCEPT !.f = "add2"])
           /\ UNCHANGED <<id, pairs, last, need, may>>
AddPair(c, p) ==
   /\ op[c].f = "add2" /\ Implied(p) /\ p \notin pairs
   /\ pairs' = pairs \cup {p}
   /\ need' = IF Stale THEN need ELSE [need EXCEPT ![p] = <<None, None>>]
   /\ may' = [may EXCEPT ![p] = <<{last[reg[p[1]]]}, {last[reg[p[2]]]}>>]
   /\ UNCHANGED <<id, reg, busy, last, op>>
AddEnd(c) ==
   /\ op[c].f = "add2" /\ pairs = {p \in AllPairs : Implied(p)}
   /\ busy' = None /\ Step(c, Ended("add", 1)) /\ UNCHANGED <<id, reg, pairs, last, need, may>>
(* removal by the number of the sensor *)
RemBegin(c) ==
   /\ op[c].f = "rem" /\ busy = None
   /\ reg' = [reg EXCEPT ![id[op[c].o]] = None] /\ busy' = c
   /\ Step(c, [op[c] EXCEPT !.f = "rem2"]) /\ UNCHANGED <<id, pairs, last, need, may>>
Going(c) == {p \in pairs : ~Implied(p) /\ ~(Leave /\ p[1] # id[op[c].o])}
RemPair(c, p) ==
   /\ op[c].f = "rem2" /\ p \in Going(c) /\ pairs' = pairs \ {p}
   /\ UNCHANGED <<id, reg, busy, last, need, may, op>>
RemEnd(c) ==
   /\ op[c].f = "rem2" /\ Going(c) = {}
   /\ busy' = None /\ Step(c, Ended("rem", 1)) /\ UNCHANGED <<id, reg, pairs, last, need, may>>
(* update of an object: its pairs must end with this calculation *)
Start(c) ==
   /\ op[c].f = "upd"
   /\ LET o == op[c].o  k == op[c].v
          new(p) == busy # None /\ op[busy].f = "add2" /\ id[op[busy].o] \in {p[1], p[2]}
          mine(p, n) == p \in pairs /\ reg[p[n]] = o
          sure(p, n) == IF mine(p, n) /\ ~new(p) THEN k ELSE need[p][n]
          late(p, n) == IF mine(p, n) /\ new(p) THEN may[p][n] \cup {k} ELSE may[p][n] IN
      /\ last' = [last EXCEPT ![o] = k]
      /\ need' = [p \in AllPairs |-> <<sure(p, 1), sure(p, 2)>>]
      /\ may' = [p \in AllPairs |-> <<late(p, 1), late(p, 2)>>]
   /\ Step(c, Ended("upd", 1)) /\ UNCHANGED <<id, reg, pairs, busy>>
Role(p, o) == IF o.r = 1 THEN p[1] = o.s ELSE p[2] = o.s
Find(c) ==
   /\ op[c].f = "find" /\ (busy = None \/ Early)
   /\ Step(c, Ended("find", {p \in pairs : Role(p, op[c])})) /\ UNCHANGED Rest
List(c) == op[c].f = "list" /\ Step(c, Ended("list", pairs)) /\ UNCHANGED Rest
Present(c) == op[c].f = "has" /\ Step(c, Ended("has", reg[op[c].s] # None)) /\ UNCHANGED Rest
Silent == \E c \in Callers : \/ AddBegin(c) \/ AddEnd(c) \/ RemBegin(c) \/ RemEnd(c) \/ Start(c)
                             \/ Find(c) \/ List(c) \/ Present(c)
                             \/ \E p \in AllPairs : AddPair(c, p) \/ RemPair(c, p)
Quiet == busy = None /\ \A c \in Callers : op[c] = Idle
(* what a pair may hold at the end on one side *)
Holds(p, n, k) == IF need[p][n] # None THEN k = need[p][n] ELSE k \in {None} \cup may[p][n]

Busy(o) == \E c \in Callers : op[c].f \in {"add", "add2"} /\ op[c].o = o
Next == \/ Silent
        \/ \E c \in Callers, o \in Objects :
              \/ Begin(c, [f |-> "add", o |-> o])
              \/ Begin(c, [f |-> "rem", o |-> o])
              \/ \E k \in Calcs : /\ \A x \in Objects : last[x] < k
                                  /\ \A d \in Callers : op[d].f = "upd" => op[d].v < k
                                  /\ \A j \in Calcs : j < k => (\E x \in Objects : last[x] >= j) \/ (\E d \in Callers : op[d].f = "upd" /\ op[d].v >= j)
                                  /\ Begin(c, [f |-> "upd", o |-> o, v |-> k])
        \/ \E c \in Callers, s \in Sensors : Begin(c, [f |-> "find", s |-> s, r |-> 1]) \/ Begin(c, [f |-> "find", s |-> s, r |-> 2])
        \/ \E c \in Callers : op[c].f = "ended" /\ op' = [op EXCEPT ![c] = Idle] /\ UNCHANGED Rest
ModelInit == Init /\ id = [o \in Objects |-> (o % 3) + 1]
(* properties *)
Exact == busy = None => pairs = {p \in AllPairs : Implied(p)}
(* a query never shows some of the pairs of an addition in progress *)
WholeQuery == [][\A c \in Callers : op[c].f = "find" /\ op'[c].f = "ended" =>
                    op'[c].v = {p \in AllPairs : Implied(p) /\ Role(p, op[c])}]_vars
(* results come from the objects which are registered *)
OwnResults == \A p \in pairs : \A n \in 1..2 :
   need[p][n] # None /\ reg[p[n]] # None => need[p][n] <= last[reg[p[n]]] /\ \A o \in Objects : o # reg[p[n]] => need[p][n] # last[o]
=============================================================================
