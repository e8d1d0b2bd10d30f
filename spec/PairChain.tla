----------------------------- MODULE PairChain -----------------------------
(***************************************************************************)
(* What a sensor pair makes of the results of its sensors. Paths are        *)
(* <<time, source de, source az, target de, target az, surface, bottom,     *)
(* caustic, upper, lower>> in seconds and degrees; the angles at the target *)
(* are those of propagation. A calculation at the receiver describes the    *)
(* same path from the other end. Every call of the environment is followed  *)
(* by the end of all background work it causes.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Monos, Reverbs, \* allowed kinds of pairs
          Versions, Schedules, MaxPaths, Depth,
          NoSwap,     \* mutation: results of the receiver published as they are
          OneSide,    \* mutation: interface collisions always kept for the source
          EveryStage  \* mutation: notifies after each stage of a chain
VARIABLES mono, reverb,
          sched,     \* 0 none
          src, rcv,  \* version of the interface collisions of each side, 0 none
          truth,     \* paths of the latest result, seen from the source
          dir,       \* direct paths published
          biv,       \* <<source version, receiver version>> combined
          rvb,       \* <<combination, schedule>> of the time series
          notes,     \* notifications of the last call
          hist
vars == <<mono, reverb, sched, src, rcv, truth, dir, biv, rvb, notes, hist>>
View == <<mono, reverb, sched, src, rcv, truth, dir, biv, rvb, notes>>

Turned(az) == (az + 180) % 360
Rev(p) == <<p[1], -p[4], Turned(p[5]), -p[2], Turned(p[3])>> \o SubSeq(p, 6, 10)
RevAll(ps) == [i \in DOMAIN ps |-> Rev(ps[i])]
None == <<0, 0>>
NoSeries == <<None, 0>>
Log(act) == hist' = Append(hist, [a |-> act, d |-> dir', s |-> src', r |-> rcv', b |-> biv', t |-> rvb', n |-> notes'])

Init == /\ mono \in Monos /\ reverb \in Reverbs
        /\ sched = 0 /\ src = 0 /\ rcv = 0 /\ truth = << >> /\ dir = << >>
        /\ biv = None /\ rvb = NoSeries /\ notes = 0
        /\ hist = << >>

(* result of the calculation of one side: 1 source, 2 receiver *)
Wave(side, v, paths) ==
   LET seen == IF side = 2 THEN RevAll(paths) ELSE paths
       s2 == IF ~reverb THEN src ELSE IF mono \/ side = 1 \/ OneSide THEN v ELSE src
       r2 == IF ~reverb THEN rcv ELSE IF mono \/ (side = 2 /\ ~OneSide) THEN v ELSE rcv
       chain == reverb /\ s2 # 0 /\ r2 # 0
   IN /\ side = 2 => ~mono
      /\ truth' = paths
      /\ dir' = IF side = 2 /\ ~NoSwap THEN RevAll(seen) ELSE seen
      /\ src' = s2 /\ rcv' = r2
      /\ biv' = IF chain THEN <<s2, r2>> ELSE biv
      /\ rvb' = IF chain /\ sched # 0 THEN <<<<s2, r2>>, sched>> ELSE rvb
      /\ notes' = IF ~reverb THEN 1
                  ELSE IF ~chain THEN 0
                  ELSE IF EveryStage /\ sched # 0 THEN 2 ELSE 1
      /\ UNCHANGED <<mono, reverb, sched>>
      /\ Log(<<1, side, v, Len(paths)>>
             \o [i \in 1..(10 * Len(paths)) |-> seen[((i - 1) \div 10) + 1][((i - 1) % 10) + 1]])
Schedule(s, force) ==
   LET run == (sched = 0 \/ force) /\ s # 0 /\ biv # None
   IN /\ sched' = s
      /\ rvb' = IF run THEN <<biv, s>> ELSE rvb
      /\ notes' = IF run THEN 1 ELSE 0
      /\ UNCHANGED <<mono, reverb, src, rcv, truth, dir, biv>>
      /\ Log(<<2, s, IF force THEN 1 ELSE 0>>)

APath == <<7, -10, 30, 20, 330, 1, 2, 3, 4, 5>>
Next == /\ Len(hist) < Depth
        /\ \/ \E side \in {1, 2}, v \in Versions, ps \in {<< >>, <<APath>>} : Wave(side, v, ps)
           \/ \E s \in Schedules, f \in BOOLEAN : Schedule(s, f)
R(set) == {RandomElement(set)}
RandomPath(i) == <<RandomElement(1..90), RandomElement(-9..9) * 10, RandomElement(0..11) * 30, RandomElement(-9..9) * 10,
                   RandomElement(0..11) * 30, RandomElement(0..3), RandomElement(0..3), RandomElement(0..3),
                   RandomElement(0..3), RandomElement(0..3)>>
SimInit == /\ mono \in Monos /\ reverb \in Reverbs
           /\ sched = 0 /\ src = 0 /\ rcv = 0 /\ truth = << >> /\ dir = << >>
           /\ biv = None /\ rvb = NoSeries /\ notes = 0
           /\ hist = <<[a |-> <<IF mono THEN 1 ELSE 0, IF reverb THEN 1 ELSE 0>>]>>
SimNext == /\ Len(hist) < Depth
           /\ \E w \in R(1..3), side \in R({1, 2}), v \in R(Versions), s \in R(Schedules), f \in R(BOOLEAN), n \in R(0..MaxPaths) :
                 IF w < 3 THEN \E ps \in {[i \in 1..n |-> RandomPath(i)]} : Wave(IF mono THEN 1 ELSE side, v, ps)
                 ELSE Schedule(s, f)

OwnView == dir = truth
BothSides == (reverb /\ src # 0 /\ rcv # 0) => biv = <<src, rcv>>
NoReverb == ~reverb => biv = None /\ rvb = NoSeries
Same == mono => src = rcv
(* a chain ends with exactly one notification, which is sent iff something  *)
(* complete was published                                                   *)
Once == /\ notes <= 1
        /\ notes = 1 <=> (Len(hist) > 0 /\ LET a == hist[Len(hist)].a IN
             IF Len(a) = 2 THEN FALSE
             ELSE IF a[1] = 1 THEN ~reverb \/ (src # 0 /\ rcv # 0)
             ELSE sched # 0 /\ biv # None /\ rvb = <<biv, sched>> /\ (a[3] = 1 \/ (Len(hist) = 1 \/ notes = 1)))
SeriesLatest == (Len(hist) > 0 /\ Len(hist[Len(hist)].a) > 3 /\ reverb /\ src # 0 /\ rcv # 0 /\ sched # 0)
                   => rvb = <<biv, sched>>
SideKept == [][\A v \in Versions : hist'[Len(hist')].a[1] = 1 /\ ~mono =>
                  /\ (hist'[Len(hist')].a[2] = 1 => rcv' = rcv)
                  /\ (hist'[Len(hist')].a[2] = 2 => src' = src)]_vars
Emit == Len(hist) = Depth => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
