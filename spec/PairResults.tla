----------------------------- MODULE PairResults -----------------------------
(***************************************************************************)
(* Background calculations of one pair: results of its sensors, which        *)
(* arrive in any order and from any thread, start the combination of both    *)
(* sides, which starts the time series. Starting a calculation supersedes    *)
(* the one of the same kind that has not been published. What is published   *)
(* last stems from what was started last. A removed pair starts nothing.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Callers, Versions, Schedules,
          Overtake, \* mutation: a superseded calculation is still published
          Ghost,    \* mutation: removed pairs start calculations
          Mute      \* mutation: no notification when there is no time series to calculate
None == <<0, 0>>
NoSeries == <<None, 0>>
VARIABLES mono, reverb,
          reg,           \* pair is registered
          src, rcv, dir, \* version of each side and of the direct paths
          sched, biv, rvb,
          pend,          \* combinations being calculated
          rpend,         \* time series being calculated
          todo,          \* published combinations whose time series is still to be started
          owed, op,
          lb, lr         \* most recently started combination and time series
vars == <<mono, reverb, reg, src, rcv, dir, sched, biv, rvb, pend, rpend, todo, owed, op, lb, lr>>
Idle == [f |-> "idle"]
Init == /\ reg = TRUE /\ src = 0 /\ rcv = 0 /\ dir = 0 /\ sched = 0 /\ biv = None /\ rvb = NoSeries
        /\ pend = << >> /\ rpend = << >> /\ todo = << >> /\ owed = 0
        /\ op = [c \in Callers |-> Idle] /\ lb = None /\ lr = NoSeries
Rest == <<mono, reverb, reg, src, rcv, dir, sched, biv, rvb, pend, rpend, todo, owed, lb, lr>>
Begin(c, o) == op[c] = Idle /\ op' = [op EXCEPT ![c] = o] /\ UNCHANGED Rest
End(c, f) == op[c].f = "ended" /\ op[c].was = f /\ op' = [op EXCEPT ![c] = Idle] /\ UNCHANGED Rest
Ended(f) == [f |-> "ended", was |-> f, b |-> <<None>>, r |-> <<NoSeries>>]
ReadEnd(c, b, r) == /\ op[c].f = "ended" /\ op[c].was = "read"
                    /\ op[c].b[1] = b /\ op[c].r[1] = r
                    /\ op' = [op EXCEPT ![c] = Idle] /\ UNCHANGED Rest
ReadB(c) == /\ op[c].f = "read" /\ op' = [op EXCEPT ![c] = [f |-> "read2", b |-> <<biv>>]] /\ UNCHANGED Rest
ReadR(c) == /\ op[c].f = "read2"
            /\ op' = [op EXCEPT ![c] = [f |-> "ended", was |-> "read", b |-> op[c].b, r |-> <<rvb>>]] /\ UNCHANGED Rest
Keep(q) == IF Overtake THEN q ELSE << >>
(* whether the pair is registered is looked at first *)
Look(c) == /\ op[c].f \in {"wave", "sched2"} /\ op[c].look = 0
           /\ op' = [op EXCEPT ![c].look = IF reg \/ Ghost THEN 1 ELSE 2] /\ UNCHANGED Rest
Wave(c) ==
   /\ op[c].f = "wave" /\ op[c].look # 0
   /\ LET v == op[c].v
          s2 == IF reverb /\ (mono \/ op[c].side = 1) THEN v ELSE src
          r2 == IF reverb /\ (mono \/ op[c].side = 2) THEN v ELSE rcv
          go == reverb /\ s2 # 0 /\ r2 # 0 /\ op[c].look = 1
      IN /\ dir' = v /\ src' = s2 /\ rcv' = r2
         /\ pend' = IF go THEN Append(Keep(pend), <<s2, r2>>) ELSE pend
         /\ lb' = IF go THEN <<s2, r2>> ELSE lb
         /\ owed' = IF reverb THEN owed ELSE owed + 1
   /\ op' = [op EXCEPT ![c] = Ended("wave")]
   /\ UNCHANGED <<mono, reverb, reg, sched, biv, rvb, rpend, todo, lr>>
BivDone(n) ==
   /\ n \in DOMAIN pend
   /\ biv' = pend[n] /\ pend' = SubSeq(pend, 1, n - 1) \o SubSeq(pend, n + 1, Len(pend))
   /\ todo' = Append(todo, reg)
   /\ UNCHANGED <<mono, reverb, reg, src, rcv, dir, sched, rvb, rpend, owed, op, lb, lr>>
StartSeries == /\ rpend' = Append(Keep(rpend), <<biv, sched>>) /\ lr' = <<biv, sched>>
(* time series after a combination; nothing to calculate: tell at once *)
Series(look) ==
   /\ todo # << >> /\ (look => todo[1] \/ Ghost) /\ (~look => ~reg)
   /\ todo' = Tail(todo)
   /\ IF look /\ sched # 0
      THEN StartSeries /\ UNCHANGED owed
      ELSE owed' = (IF Mute THEN owed ELSE owed + 1) /\ UNCHANGED <<rpend, lr>>
   /\ UNCHANGED <<mono, reverb, reg, src, rcv, dir, sched, biv, rvb, pend, op, lb>>
RvDone(n) ==
   /\ n \in DOMAIN rpend
   /\ rvb' = rpend[n] /\ rpend' = SubSeq(rpend, 1, n - 1) \o SubSeq(rpend, n + 1, Len(rpend))
   /\ owed' = owed + 1
   /\ UNCHANGED <<mono, reverb, reg, src, rcv, dir, sched, biv, pend, todo, op, lb, lr>>
(* a schedule recalculates the time series if it is the first one or forced *)
Sched(c) ==
   /\ op[c].f = "sched" /\ sched' = op[c].v
   /\ op' = [op EXCEPT ![c] = IF (sched = 0 \/ op[c].force) /\ reg THEN [f |-> "sched2", look |-> 0] ELSE Ended("sched")]
   /\ UNCHANGED <<mono, reverb, reg, src, rcv, dir, biv, rvb, pend, rpend, todo, owed, lb, lr>>
Sched2(c) ==
   /\ op[c].f = "sched2" /\ op[c].look # 0
   /\ IF op[c].look = 1 /\ biv # None THEN StartSeries ELSE UNCHANGED <<rpend, lr>>
   /\ op' = [op EXCEPT ![c] = Ended("sched")]
   /\ UNCHANGED <<mono, reverb, reg, src, rcv, dir, sched, biv, rvb, pend, todo, owed, lb>>
Remove(c) ==
   /\ op[c].f = "rem" /\ reg' = FALSE
   /\ op' = [op EXCEPT ![c] = Ended("rem")]
   /\ UNCHANGED <<mono, reverb, src, rcv, dir, sched, biv, rvb, pend, rpend, todo, owed, lb, lr>>
Note == owed > 0 /\ owed' = owed - 1
        /\ UNCHANGED <<mono, reverb, reg, src, rcv, dir, sched, biv, rvb, pend, rpend, todo, op, lb, lr>>
Quiet == pend = << >> /\ rpend = << >> /\ todo = << >> /\ owed = 0 /\ \A c \in Callers : op[c] = Idle

Silent == \/ \E c \in Callers : Look(c) \/ Wave(c) \/ Sched(c) \/ Sched2(c) \/ Remove(c) \/ ReadB(c) \/ ReadR(c)
          \/ \E n \in 1..Len(pend) : BivDone(n)
          \/ \E n \in 1..Len(rpend) : RvDone(n)
          \/ \E b \in BOOLEAN : Series(b)
(* versions and schedules are used once each in the exhaustive model *)
Used == {src, rcv, dir} \cup {op[c].v : c \in {d \in Callers : op[d].f \in {"wave"}}}
Fresh(v) == \A w \in Versions : v <= w => w \notin Used
Next == \/ Silent \/ Note
        \/ \E c \in Callers, v \in Versions, s \in {1, 2} :
              Fresh(v) /\ (v > 1 => ~Fresh(v - 1)) /\ (mono => s = 1) /\ Begin(c, [f |-> "wave", side |-> s, v |-> v, look |-> 0])
        \/ \E c \in Callers, v \in Schedules, f \in BOOLEAN :
              v > sched /\ (\A d \in Callers : op[d].f # "sched") /\ Begin(c, [f |-> "sched", v |-> v, force |-> f])
        \/ \E c \in Callers : reg /\ (\A d \in Callers : op[d].f # "rem") /\ Begin(c, [f |-> "rem"])
        \/ \E c \in Callers, f \in {"wave", "sched", "rem"} : End(c, f)
ModelInit == Init /\ mono \in BOOLEAN /\ reverb \in BOOLEAN

(* properties *)
BivLatest == Quiet => biv = lb
SeriesLatest == Quiet => rvb = lr
(* the time series of a quiet registered pair belongs to its combination *)
SeriesOfPair == Quiet /\ reg /\ biv # None /\ rvb # NoSeries => rvb[1] = biv
Complete == Quiet /\ reg /\ reverb /\ src # 0 /\ rcv # 0 => biv = <<src, rcv>>
(* after removal, no calculation is started except by calls which looked before *)
NothingNew == [][~reg /\ (lb' # lb \/ lr' # lr) =>
                    \/ \E c \in Callers : op[c].f \in {"wave", "sched2"} /\ op[c].look = 1
                    \/ todo # << >> /\ todo[1]]_vars
Told == [][biv' # biv => owed' > owed \/ todo' # << >>]_vars
EveryTold == [][todo # << >> /\ todo' # todo /\ Len(todo') < Len(todo) => owed' > owed \/ lr' = <<biv, sched>>]_vars
=============================================================================
