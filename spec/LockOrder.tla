------------------------------ MODULE LockOrder ------------------------------
(***************************************************************************)
(* Locks which the operations on managers, platforms, sensors and pairs      *)
(* hold while they ask for others. No set of threads may wait for each other.*)
(*   SM     sensor manager (shared for queries, exclusive for changes)       *)
(*   SMmap  pairs of the sensor manager      PMmap  platforms                *)
(*   H, P1, P2  a platform, and two sensors (P2 is attached to it)           *)
(*   N1     delivery of results of sensor 1                                  *)
(*   PR     the pair of both sensors         L  its listener lists           *)
(*   C      a call to the pair (held by the caller; a pair waits for the end *)
(*          of calls before it is destroyed)                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads,
          KillLocked,   \* mutation: removed pairs are destroyed while the manager is locked
          AskInUpdate,  \* mutation: an update asks the manager while an addition marks the sensor
          TellLocked,   \* mutation: listeners of the pair are called while the pair is locked
          ReadTargets   \* mutation: an update locks the other sensors to read their positions
VARIABLES pc, prog, held
vars == <<pc, prog, held>>
R(l) == <<"acq", l, "r">>   W(l) == <<"acq", l, "w">>   U(l) == <<"rel", l>>
Brief(l, m) == << <<"acq", l, m>>, U(l) >>
Cond(b, s) == IF b THEN s ELSE << >>
(* a listener of the pair asks the manager for the pairs of a source, and reads the pair *)
Ear == <<R("SM")>> \o Brief("SMmap", "r") \o <<U("SM")>> \o Brief("PR", "r")
Find == <<R("SM")>> \o Brief("SMmap", "r") \o <<U("SM")>>
Series == Brief("SMmap", "r") \o <<W("PR")>> \o Brief("P1", "r") \o <<U("PR")>>
Update(p, o) == <<W(p)>> \o Cond(AskInUpdate, Find) \o Brief("PMmap", "r")
                \o Cond(ReadTargets, Brief(o, "r")) \o <<U(p)>>
Kill == Brief("L", "w") \o <<W("C"), U("C")>>
Programs == [
   update1 |-> Update("P1", "P2"),
   update2 |-> Update("P2", "P1"),
   host    |-> <<W("H")>> \o Update("P2", "P1") \o <<U("H")>>,
   add     |-> <<W("SM")>> \o Brief("PMmap", "w") \o Brief("P1", "r") \o Brief("P2", "r") \o Brief("SMmap", "w")
               \o Brief("L", "w") \o Cond(AskInUpdate, Brief("P1", "w")) \o <<U("SM")>>,
   remove  |-> <<W("SM")>> \o Brief("SMmap", "w") \o Cond(KillLocked, Kill) \o Brief("PMmap", "w") \o <<U("SM")>>
               \o Cond(~KillLocked, Kill),
   find    |-> Find,
   sched   |-> Brief("P1", "w") \o Find \o Series,
   deliver |-> <<W("N1")>> \o Brief("L", "w") \o <<R("C")>> \o Brief("SMmap", "r") \o <<W("PR")>> \o Brief("P1", "r")
               \o <<U("PR"), U("C")>> \o Brief("L", "w") \o <<U("N1")>>,
   after   |-> <<R("C"), W("PR")>> \o Cond(TellLocked, Ear) \o <<U("PR")>> \o Series \o Cond(~TellLocked, Ear) \o <<U("C")>>,
   reading |-> Brief("PMmap", "r") \o Brief("P1", "r") \o Brief("P2", "r") \o Brief("PR", "r")]
Locks == {"SM", "SMmap", "PMmap", "H", "P1", "P2", "N1", "PR", "L", "C"}
Init == /\ pc = [t \in Threads |-> 1] /\ prog \in [Threads -> DOMAIN Programs]
        /\ held = [l \in Locks |-> {}]
Code(t) == Programs[prog[t]]
Grant(t, l, m) == IF m = "w" THEN held[l] = {} ELSE \A h \in held[l] : h[2] = "r" /\ h[1] # t
Run(t) ==
   /\ pc[t] <= Len(Code(t))
   /\ LET c == Code(t)[pc[t]] IN
      IF c[1] = "acq"
      THEN Grant(t, c[2], c[3]) /\ held' = [held EXCEPT ![c[2]] = @ \cup {<<t, c[3]>>}]
      ELSE held' = [held EXCEPT ![c[2]] = {h \in @ : h[1] # t}]
   /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED prog
Done == (\A t \in Threads : pc[t] > Len(Code(t))) /\ UNCHANGED vars
Next == Done \/ \E t \in Threads : Run(t)
Spec == Init /\ [][Next]_vars
(* readers share, writers do not; everything is released in the end *)
Exclusion == \A l \in Locks : \A h \in held[l] : h[2] = "w" => held[l] = {h}
Released == (\A t \in Threads : pc[t] > Len(Code(t))) => \A l \in Locks : held[l] = {}
=============================================================================
