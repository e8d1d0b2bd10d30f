----------------------------- MODULE WaveResults -----------------------------
(***************************************************************************)
(* Results of background calculations of sensors. Every forced update of a  *)
(* sensor starts a calculation and aborts the one started before; at most    *)
(* one calculation of a sensor delivers at a time, to every listener of the  *)
(* sensor and to the pair which the sensors belong to. The pair keeps what   *)
(* was delivered last and notifies its own listener.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Sensors, Calcs, Callers, Listeners,
          LateCheck,  \* mutation: abort looked at before waiting for the turn to deliver
          NoTurn,     \* mutation: deliveries of a sensor may overlap
          NoAbort     \* mutation: an update does not abort the previous calculation
None == 0
VARIABLES st,      \* state of each calculation: no run check out done
          ab,      \* calculations asked to abort before they delivered
          own,     \* sensor of each calculation
          latest,  \* most recently started calculation of each sensor
          got,     \* listeners which received each calculation
          took,    \* calculations which the pair has received
          pdir,    \* calculation that the pair keeps
          owed,    \* notifications which listeners of the pair will receive
          op,      \* call in progress of each caller
          xs,      \* listeners of each sensor
          order,   \* calculations in the order of their start
          heard    \* per listener and sensor: last calculation it received
vars == <<st, ab, own, latest, got, took, pdir, owed, op, xs, order, heard>>
view == <<st, ab, own, latest, got, took, pdir, owed, op, xs, order, heard>>
Idle == [f |-> "idle"]
Init == /\ st = [k \in Calcs |-> "no"] /\ ab = {} /\ own = [k \in Calcs |-> None]
        /\ latest = [s \in Sensors |-> None] /\ got = [k \in Calcs |-> {}] /\ took = {}
        /\ pdir = None /\ owed = 0 /\ op = [c \in Callers |-> Idle]
        /\ order = << >> /\ heard = [x \in Listeners |-> [s \in Sensors |-> None]]

Begin(c, o) == op[c] = Idle /\ op' = [op EXCEPT ![c] = o]
               /\ UNCHANGED <<st, ab, own, latest, got, took, pdir, owed, xs, order, heard>>
End(c, f) == /\ op[c].f = "ended" /\ op[c].was = f /\ op' = [op EXCEPT ![c] = Idle]
             /\ UNCHANGED <<st, ab, own, latest, got, took, pdir, owed, xs, order, heard>>
Ended(f) == [f |-> "ended", was |-> f]
(* effect of an update *)
Start(c) ==
   /\ op[c].f = "upd"
   /\ LET s == op[c].s  k == op[c].k  o == latest[s] IN
      /\ st[k] = "no"
      /\ st' = [st EXCEPT ![k] = "run"] /\ own' = [own EXCEPT ![k] = s]
      /\ latest' = [latest EXCEPT ![s] = k] /\ order' = Append(order, k)
      /\ ab' = IF o # None /\ st[o] \in {"run", "check"} /\ ~NoAbort THEN ab \cup {o} ELSE ab
   /\ op' = [op EXCEPT ![c] = Ended("upd")]
   /\ UNCHANGED <<got, took, pdir, owed, xs, heard>>
(* effect of an explicit abort *)
Abort(c) ==
   /\ op[c].f = "abort"
   /\ ab' = IF st[op[c].k] \in {"run", "check"} THEN ab \cup {op[c].k} ELSE ab
   /\ op' = [op EXCEPT ![c] = Ended("abort")]
   /\ UNCHANGED <<st, own, latest, got, took, pdir, owed, xs, order, heard>>
(* a calculation is complete and gets its turn to deliver *)
Turn(k) == NoTurn \/ \A j \in Calcs : own[j] = own[k] => st[j] # "out"
Check(k) ==
   /\ LateCheck /\ st[k] = "run" /\ k \notin ab
   /\ st' = [st EXCEPT ![k] = "check"]
   /\ UNCHANGED <<ab, own, latest, got, took, pdir, owed, op, xs, order, heard>>
Deliver(k) ==
   /\ IF LateCheck THEN st[k] = "check" ELSE st[k] = "run" /\ k \notin ab
   /\ Turn(k)
   /\ st' = [st EXCEPT ![k] = "out"]
   /\ UNCHANGED <<ab, own, latest, got, took, pdir, owed, op, xs, order, heard>>
(* delivery ends when the pair and all listeners have received the results   *)
After(k, g, t) == IF g = xs[own[k]] /\ k \in t THEN [st EXCEPT ![k] = "done"] ELSE st
Note(s, k, x) ==
   /\ k \in Calcs /\ st[k] = "out" /\ own[k] = s /\ x \in xs[s] \ got[k]
   /\ got' = [got EXCEPT ![k] = @ \cup {x}]
   /\ heard' = [heard EXCEPT ![x][s] = k] /\ st' = After(k, got'[k], took)
   /\ UNCHANGED <<ab, own, latest, took, pdir, owed, op, xs, order>>
Take(k) ==
   /\ st[k] = "out" /\ k \notin took
   /\ took' = took \cup {k} /\ pdir' = k /\ owed' = owed + 1
   /\ st' = After(k, got[k], took')
   /\ UNCHANGED <<ab, own, latest, got, op, xs, order, heard>>
PairNote ==
   /\ owed > 0 /\ owed' = owed - 1
   /\ UNCHANGED <<st, ab, own, latest, got, took, pdir, op, xs, order, heard>>
Quiet == /\ \A k \in Calcs : st[k] \in {"no", "done"} \/ (st[k] = "run" /\ k \in ab)
         /\ owed = 0 /\ \A c \in Callers : op[c] = Idle

Silent == \/ \E c \in Callers : Start(c) \/ Abort(c)
          \/ \E k \in Calcs : Check(k) \/ Deliver(k) \/ Take(k)
Next == \/ Silent
        \/ \E c \in Callers, s \in Sensors, k \in Calcs :
              /\ st[k] = "no" /\ \A d \in Callers : op[d].f = "upd" => op[d].k # k
              /\ \A j \in Calcs : j < k => st[j] # "no" \/ \E d \in Callers : op[d].f = "upd" /\ op[d].k = j
              /\ Begin(c, [f |-> "upd", s |-> s, k |-> k])
        \/ \E c \in Callers, k \in Calcs : st[k] # "no" /\ k \notin ab /\ Begin(c, [f |-> "abort", k |-> k])
        \/ \E c \in Callers, f \in {"upd", "abort"} : End(c, f)
        \/ \E s \in Sensors, k \in Calcs, x \in Listeners : Note(s, k, x)
        \/ PairNote
ModelInit == Init /\ xs = [s \in Sensors |-> Listeners]
Spec == ModelInit /\ [][Next]_vars /\ WF_vars(Next)

(* properties *)
Pos(k) == CHOOSE n \in DOMAIN order : order[n] = k
NoAbortedResult == \A k \in ab : got[k] = {} /\ k \notin took
(* every listener hears the results of a sensor in the order of their start *)
InOrder == [][\A x \in Listeners, s \in Sensors :
                 heard'[x][s] # heard[x][s] /\ heard[x][s] # None => Pos(heard[x][s]) < Pos(heard'[x][s])]_vars
(* when all is quiet, listeners have heard the latest calculation of each   *)
(* sensor unless it was aborted explicitly                                  *)
Latest == Quiet => \A s \in Sensors, x \in Listeners :
             latest[s] # None /\ latest[s] \notin ab => heard[x][s] = latest[s]
PairLatest == Quiet /\ (\A s \in Sensors : latest[s] \notin ab) /\ order # << >> =>
                 pdir \in {latest[s] : s \in Sensors}
Once == \A k \in Calcs : st[k] = "done" => got[k] = xs[own[k]] /\ k \in took
AllDelivered == Quiet => \A k \in Calcs : st[k] = "done" \/ st[k] = "no" \/ k \in ab
=============================================================================
