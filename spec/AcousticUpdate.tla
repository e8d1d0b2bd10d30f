--------------------------- MODULE AcousticUpdate ---------------------------
(***************************************************************************)
(* When a sensor starts a wavefront calculation, from where and for which   *)
(* targets. Objects 1 and 2 are sensors, 3 and 4 other platforms; sensor 2  *)
(* can be attached to platform 3 (at its origin). Positions are whole steps *)
(* <<north, east, up>>, orientations <<yaw, pitch, roll>>; a step is 0.4 of *)
(* the threshold, so that a difference of 3 steps reaches it.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sensors, Others,
          Steps,      \* possible changes of one coordinate
          Bound,      \* coordinates stay in -Bound .. Bound
          Dims,       \* coordinates that change: 1..3 position, 4..6 orientation
          Ranges,     \* values of range limits, 0 = none
          Turn,       \* yaw steps of a full turn
          Depth,
          Drift,      \* mutation: compares with the last update instead of the last calculation
          Consume,    \* mutation: suppressed updates take the request to recalculate
          OldPlace    \* mutation: targets selected before the sensor has moved

StepsSmall == {-2, 1, 3}
StepsSim == -4..4
Obj == Sensors \cup Others
TEST == 0  FORCE == 1  NOUP == 2
VARIABLES mot,     \* object -> <<n, e, u, yaw, pitch, roll>>
          reg, tgt, att,
          base,    \* sensor -> motion when a calculation was last due
          needs, reverb, rmin, rmax,
          calc,    \* calculations started by the last action
          hist
vars == <<mot, reg, tgt, att, base, needs, reverb, rmin, rmax, calc, hist>>
View == <<mot, reg, tgt, att, base, needs, reverb, rmin, rmax, calc>>
Abs(x) == IF x < 0 THEN -x ELSE x
Wrap(x) == IF x > Turn \div 2 THEN x - Turn ELSE IF x <= -(Turn \div 2) THEN x + Turn ELSE x
Diff(a, b, k) == IF k = 4 THEN Abs(Wrap(a[k] - b[k])) ELSE Abs(a[k] - b[k])
Moved(a, b) == \E k \in 1..6 : Diff(a, b, k) >= 3
(* squared distance, a north step is twice as long as an east step *)
D2(a, b) == 4 * (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
InRange(s, m, from) == {t \in reg : /\ tgt[t]
                                    /\ rmin[s] # 0 => D2(m[t], from) > rmin[s]
                                    /\ rmax[s] # 0 => D2(m[t], from) <= rmax[s]}
Place(m) == <<m[1], m[2], m[3]>>

Log(act) == hist' = Append(hist, [a |-> act,
     c |-> {<<x.s, x.at, x.t>> : x \in calc'},
     m |-> [o \in Obj |-> mot'[o]]])
Zero == <<0, 0, 0, 0, 0, 0>>
Init == /\ mot = [o \in Obj |-> Zero] /\ reg = {} /\ tgt = [o \in Obj |-> TRUE] /\ att = FALSE
        /\ base = [s \in Sensors |-> Zero] /\ needs = [s \in Sensors |-> TRUE]
        /\ reverb = [s \in Sensors |-> FALSE]
        /\ rmin = [s \in Sensors |-> 0] /\ rmax = [s \in Sensors |-> 0]
        /\ calc = {} /\ hist = << >>

(* objects moved by an update of o, in order *)
Chain(o) == IF o = 3 /\ att THEN <<3, 2>> ELSE <<o>>
Update(o, to, type, how) ==
   LET movers == {Chain(o)[i] : i \in 1..Len(Chain(o))}
       m2 == [x \in Obj |-> IF x \in movers THEN to ELSE mot[x]]
       due(s) == \/ type = FORCE
                 \/ type # NOUP /\ (needs[s] \/ Moved(to, base[s]))
       ss == movers \cap Sensors
       tg(s) == IF OldPlace THEN InRange(s, mot, mot[s]) ELSE InRange(s, m2, to)
   IN /\ mot' = m2
      /\ base' = [s \in Sensors |-> IF s \in ss /\ (due(s) \/ Drift) THEN to ELSE base[s]]
      /\ needs' = [s \in Sensors |-> IF s \in ss /\ (type # NOUP \/ Consume) THEN FALSE ELSE needs[s]]
      /\ calc' = {[s |-> s, at |-> Place(to), t |-> {<<t, Place(m2[t])>> : t \in tg(s)}] :
                    s \in {x \in ss : due(x) /\ (tg(x) # {} \/ reverb[x])}}
      /\ UNCHANGED <<reg, tgt, att, reverb, rmin, rmax>>
      /\ Log(<<1, o>> \o to \o <<type, how>>)
Register(o) == /\ reg' = (IF o \in reg THEN reg \ {o} ELSE reg \cup {o}) /\ calc' = {}
               /\ UNCHANGED <<mot, tgt, att, base, needs, reverb, rmin, rmax>>
               /\ Log(<<2, o>>)
Target(o) == /\ tgt' = [tgt EXCEPT ![o] = ~@] /\ calc' = {}
             /\ UNCHANGED <<mot, reg, att, base, needs, reverb, rmin, rmax>>
             /\ Log(<<3, o>>)
Limits(s, a, b, v) == /\ rmin' = [rmin EXCEPT ![s] = a] /\ rmax' = [rmax EXCEPT ![s] = b]
                      /\ reverb' = [reverb EXCEPT ![s] = v] /\ calc' = {}
                      /\ UNCHANGED <<mot, reg, tgt, att, base, needs>>
                      /\ Log(<<4, s, a, b, IF v THEN 1 ELSE 0>>)
Pair(s, r) == /\ needs' = [x \in Sensors |-> needs[x] \/ x \in {s, r}] /\ calc' = {}
              /\ UNCHANGED <<mot, reg, tgt, att, base, reverb, rmin, rmax>>
              /\ Log(<<5, s, r>>)
(* attaching moves the sensor silently *)
Attach == /\ {2, 3} \subseteq Obj /\ att' = ~att /\ calc' = {}
          /\ mot' = IF att THEN mot ELSE [mot EXCEPT ![2] = mot[3]]
          /\ UNCHANGED <<reg, tgt, base, needs, reverb, rmin, rmax>>
          /\ Log(<<6>>)

Limit(x) == IF x > Bound THEN Bound ELSE IF x < -Bound THEN -Bound ELSE x
To(o, k, d) == [mot[o] EXCEPT ![k] = IF k = 4 THEN Wrap(@ + d) ELSE Limit(@ + d)]
Next == /\ Len(hist) < Depth
        /\ \/ \E o \in Obj, k \in Dims, d \in Steps, ty \in {TEST, FORCE, NOUP} : Update(o, To(o, k, d), ty, 0)
           \/ \E o \in Obj : Register(o) \/ Target(o)
           \/ \E s \in Sensors, a \in Ranges, b \in Ranges, v \in BOOLEAN : Limits(s, a, b, v)
           \/ \E s \in Sensors, r \in Sensors : Pair(s, r)
           \/ Attach
R(set) == {RandomElement(set)}
SimInit == /\ mot \in {[o \in Obj |-> [k \in 1..6 |-> IF k = 4 THEN RandomElement({-89, -1, 0, 88, 90}) ELSE RandomElement(-3..3)]] : n \in 1..300}
           /\ reg \in {{}, {1, 2, 3, 4}}
           /\ tgt = [o \in Obj |-> TRUE] /\ att = FALSE
           /\ base = [s \in Sensors |-> Zero] /\ needs = [s \in Sensors |-> TRUE]
           /\ reverb = [s \in Sensors |-> FALSE]
           /\ rmin = [s \in Sensors |-> 0] /\ rmax = [s \in Sensors |-> 0]
           /\ calc = {}
           /\ hist = << [a |-> <<IF reg = {} THEN 0 ELSE 1>> \o mot[1] \o mot[2] \o mot[3] \o mot[4]] >>
SimNext == /\ Len(hist) < Depth
           /\ \E w \in R(1..24), o \in R(1..8), k \in R(Dims), d \in R(Steps), t \in R(1..6) :
              LET obj == <<1, 1, 1, 2, 2, 3, 3, 4>>[o]
                  type == <<TEST, TEST, TEST, TEST, FORCE, NOUP>>[t] IN
              CASE w <= 13 -> ~(att /\ obj = 2) /\ Update(obj, To(obj, k, d), type, 0)
                [] w = 14 -> ~(att /\ obj = 2) /\ Update(obj, mot[obj], type, 1)
                [] w \in 15..16 -> Register((o % 4) + 1)
                [] w = 17 -> Target((o % 4) + 1)
                [] w \in 18..20 -> \E a \in R(Ranges), b \in R(Ranges), v \in R(BOOLEAN) : Limits((o % 2) + 1, a, b, v)
                [] w = 21 -> Pair((o % 2) + 1, (k % 2) + 1)
                [] OTHER -> Attach

(* no drift: after an update that was not suppressed a sensor is nearer     *)
(* than a threshold to where it was computed last                           *)
LastUpdate == Len(hist) > 0 /\ Len(hist[Len(hist)].a) = 10
Last == hist[Len(hist)].a
Fresh == (LastUpdate /\ Last[9] # NOUP) =>
            \A s \in {Chain(Last[2])[i] : i \in 1..Len(Chain(Last[2]))} \cap Sensors :
               ~Moved(mot[s], base[s]) /\ ~needs[s]
Now == \A c \in calc : /\ c.at = Place(mot[c.s])
                       /\ {x[1] : x \in c.t} = InRange(c.s, mot, mot[c.s])
                       /\ \A x \in c.t : x[2] = Place(mot[x[1]])
                       /\ c.t # {} \/ reverb[c.s]
(* counted from the last calculation or request *)
Request == [][\A s \in Sensors : needs[s] /\ ~needs'[s] => base'[s] = mot'[s]
                 /\ hist'[Len(hist')].a[9] # NOUP]_vars
Base == [][\A s \in Sensors : base'[s] # base[s] =>
             (needs[s] \/ hist'[Len(hist')].a[9] = FORCE \/ Moved(mot'[s], base[s]))]_vars
Emit == Len(hist) = Depth => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
