------------------------------ MODULE RvbtsBook ------------------------------
(***************************************************************************)
(* Reverberation time series of a bistatic pair: each transmitted pulse      *)
(* returns from each scattering patch (biverb) once, and each receiver       *)
(* channel is the sum of these returns, weighted by the product of source    *)
(* level, source beam, scattered power, pulse length and receiver beam.      *)
(* Directions are the six axes of the world, orientations are quarter turns  *)
(* of yaw, pitch and roll, times are eighths of a second, frequencies are in *)
(* hundreds of Hertz, levels are integers (powers are multiples of six).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Turns, Pitches, Keys, Modes, Kinds, Dirs, Levels, Lengths, Delays, Travels, Powers, Axes, Depth, MaxVerbs, MaxPulses,
          Outward,   \* mutation: paths are turned from the body to the world
          Plus,      \* mutation: levels are added
          AtOnce,    \* mutation: all pulses start when the schedule starts
          ByKey,     \* mutation: the channel is the key of the beam
          Late       \* mutation: orientations and schedule are those at the time of the computation
DirsAll == {<<1,0,0>>, <<0,1,0>>, <<-1,0,0>>, <<0,-1,0>>, <<0,0,1>>, <<0,0,-1>>}
DirsLevel == {<<1,0,0>>, <<0,1,0>>, <<-1,0,0>>}
DirsSmall == {<<1,0,0>>, <<0,1,0>>}
PitchAll == {0, 1, 3}
AxesAll == {<<1>>, <<3>>, <<1, 4>>, <<1, 2, 4>>, <<2, 3>>, <<1, 3, 4>>}
AxesSmall == {<<1>>}
VARIABLES host,    \* orientation of the host of the source, or << >>
          rel,     \* orientation of the source on its host, or in the world
          rori,    \* orientation of the receiver
          sbeam,   \* transmit mode -> kind of beam
          rbeam,   \* key -> kind and steering
          pulses,  \* schedule
          verbs,   \* biverbs
          prep,    \* what a generator took over when it was created, or << >>
          out,     \* channels of the last time series
          hist
vars == <<host, rel, rori, sbeam, rbeam, pulses, verbs, prep, out, hist>>
View == <<host, rel, rori, sbeam, rbeam, pulses, verbs, prep, out>>
(* rotations: columns are the front, right and up axes of the body in the world *)
C(q) == <<1, 0, -1, 0>>[(q % 4) + 1]
S(q) == <<0, 1, 0, -1>>[(q % 4) + 1]
Yaw(q) == << <<C(q), 0 - S(q), 0>>, <<S(q), C(q), 0>>, <<0, 0, 1>> >>
Pitch(q) == << <<C(q), 0, 0 - S(q)>>, <<0, 1, 0>>, <<S(q), 0, C(q)>> >>
Roll(q) == << <<1, 0, 0>>, <<0, C(q), S(q)>>, <<0, 0 - S(q), C(q)>> >>
Mul(a, b) == [i \in 1..3 |-> [j \in 1..3 |-> a[i][1] * b[1][j] + a[i][2] * b[2][j] + a[i][3] * b[3][j]]]
Mat(o) == Mul(Yaw(o[1]), Mul(Pitch(o[2]), Roll(o[3])))
App(a, v) == [i \in 1..3 |-> a[i][1] * v[1] + a[i][2] * v[2] + a[i][3] * v[3]]
Trans(a) == [i \in 1..3 |-> [j \in 1..3 |-> a[j][i]]]
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Body(m, v) == App(IF Outward THEN m ELSE Trans(m), v)
(* level of a beam *)
Axis(v) == IF v[1] = 1 THEN 3 ELSE IF v[2] = 1 THEN 2 ELSE IF v[3] = 1 THEN 1 ELSE IF v[2] = -1 THEN 4 ELSE 0
Level(kind, arrival, steer, freq) ==
   CASE kind = 1 -> 1
     [] kind = 2 -> Axis(arrival)
     [] kind = 3 -> Dot(arrival, steer) + 1
     [] kind = 4 -> freq
(* power at a frequency, between those of the axis *)
Power(v, f) ==
   IF Len(v.axis) = 1 THEN v.power[1]
   ELSE LET n == CHOOSE k \in 1..(Len(v.axis) - 1) : v.axis[k] <= f /\ f <= v.axis[k+1]
        IN v.power[n] + ((f - v.axis[n]) * (v.power[n+1] - v.power[n])) \div (v.axis[n+1] - v.axis[n])
(* time at which a pulse starts *)
RECURSIVE Start(_, _)
Start(P, n) == IF n = 1 THEN P[1].delay ELSE IF AtOnce THEN P[n].delay ELSE Start(P, n - 1) + P[n-1].len + P[n].delay
(* state of a generator *)
State == [host |-> host, rel |-> rel, rori |-> rori, pulses |-> pulses]
Matrix(g) == IF g.host = << >> THEN Mat(g.rel) ELSE Mul(Mat(g.host), Mat(g.rel))
(* ordered steering is relative to the host, beams look relative to the sensor *)
Steer(g, d) == IF g.host = << >> THEN d ELSE App(Trans(Matrix(g)), App(Mat(g.host), d))
(* one return: weight, time and spread *)
Term(g, v, n, b) ==
   LET p == g.pulses[n]
       bs == Level(sbeam[p.mode], Body(Matrix(g), v.sdir), Steer(g, p.steer), p.freq)
       br == Level(b[1], Body(Mat(g.rori), v.rdir), b[2], p.freq)
       pw == Power(v, p.freq) * p.len
   IN [w |-> IF Plus THEN p.level + bs + pw + br ELSE p.level * bs * pw * br,
       c |-> Start(g.pulses, n) + v.time + v.len + p.len, s |-> v.len + p.len]
Nth(n) == CHOOSE k \in DOMAIN rbeam : Cardinality({j \in DOMAIN rbeam : j < k}) = n - 1
RECURSIVE Series(_, _, _, _, _)
Series(g, vs, i, n, b) ==
   IF i > Len(vs) THEN << >>
   ELSE IF n > Len(g.pulses) THEN Series(g, vs, i + 1, 1, b)
   ELSE <<Term(g, vs[i], n, b)>> \o Series(g, vs, i, n + 1, b)
Result(g, vs) ==
   IF ByKey THEN [k \in DOMAIN rbeam |-> Series(g, vs, 1, 1, rbeam[k])]
   ELSE [n \in 1..Cardinality(DOMAIN rbeam) |-> Series(g, vs, 1, 1, rbeam[Nth(n)])]
Log(act) == hist' = Append(hist, [a |-> act, out |-> out'])
Same == UNCHANGED <<host, rel, sbeam, verbs>>
SrcBeam(m, k) == /\ sbeam' = [x \in DOMAIN sbeam \cup {m} |-> IF x = m THEN k ELSE sbeam[x]]
                 /\ UNCHANGED <<host, rel, rori, rbeam, pulses, verbs, prep, out>> /\ Log(<<1, m, k>>)
RcvBeam(m, k, d) == /\ rbeam' = [x \in DOMAIN rbeam \cup {m} |-> IF x = m THEN <<k, d>> ELSE rbeam[x]]
                    /\ Same /\ UNCHANGED <<rori, pulses, prep, out>> /\ Log(<<2, m, k>> \o d)
Reset == /\ DOMAIN rbeam # {} /\ rbeam' = [x \in {} |-> << >>]
         /\ Same /\ UNCHANGED <<rori, pulses, prep, out>> /\ Log(<<3>>)
TurnSrc(o) == /\ IF host = << >> THEN rel' = o /\ host' = host ELSE host' = o /\ rel' = rel
              /\ UNCHANGED <<rori, sbeam, rbeam, pulses, verbs, prep, out>> /\ Log(<<4>> \o o)
TurnRcv(o) == /\ rori' = o /\ Same /\ UNCHANGED <<rbeam, pulses, prep, out>> /\ Log(<<5>> \o o)
Pulse(p) == /\ p.mode \in DOMAIN sbeam /\ Len(pulses) < MaxPulses /\ pulses' = Append(pulses, p)
            /\ Same /\ UNCHANGED <<rori, rbeam, prep, out>>
            /\ Log(<<6, p.mode, p.level, p.len, p.delay, p.freq>> \o p.steer)
Clear == /\ Len(pulses) > 1 /\ pulses' = << >> /\ Same /\ UNCHANGED <<rori, rbeam, prep, out>> /\ Log(<<7>>)
Verb(i, v) == /\ Len(verbs) < MaxVerbs /\ verbs' = Append(verbs, v)
              /\ UNCHANGED <<host, rel, rori, sbeam, rbeam, pulses, prep, out>>
              /\ Log(<<8, i, v.time, v.len>> \o v.sdir \o v.rdir \o <<Len(v.axis)>> \o v.axis \o v.power)
Prepare == /\ pulses # << >> /\ prep' = <<State>>
           /\ Same /\ UNCHANGED <<rori, rbeam, pulses, out>> /\ Log(<<9>>)
Run == /\ prep # << >> /\ DOMAIN rbeam # {}
       /\ \A n \in DOMAIN pulses : pulses[n].mode \in DOMAIN sbeam
       /\ out' = Result(IF Late THEN State ELSE prep[1], verbs) /\ prep' = << >>
       /\ Same /\ UNCHANGED <<rori, rbeam, pulses>> /\ Log(<<10>>)
Start0 == /\ sbeam = (0 :> 2) /\ rbeam = [x \in {} |-> << >>] /\ verbs = << >> /\ prep = << >> /\ out = << >>
Init == /\ host \in {<< >>, <<1, 0, 0>>} /\ rel = <<0, 0, 0>> /\ rori = <<0, 0, 0>> /\ Start0
        /\ pulses = << [mode |-> 0, level |-> 1, len |-> 1, delay |-> 1, freq |-> 1, steer |-> <<1, 0, 0>>] >> /\ hist = << [a |-> host \o rel] >>
Next == /\ Len(hist) < Depth
        /\ \/ \E q \in Turns, p \in Pitches : TurnSrc(<<q, p, 0>>) \/ TurnRcv(<<q, p, 0>>)
           \/ \E m \in Keys, k \in Kinds : RcvBeam(m, k, <<1, 0, 0>>)
           \/ \E l \in Lengths, d \in Delays : Pulse([mode |-> 0, level |-> 2, len |-> l, delay |-> d, freq |-> 1, steer |-> <<0, 1, 0>>])
           \/ \E t \in Travels, s \in Dirs, r \in Dirs : Verb(0, [time |-> t, len |-> 1, sdir |-> s, rdir |-> r, axis |-> <<1>>, power |-> <<6>>])
           \/ Prepare \/ Run \/ Reset
R(set) == {RandomElement(set)}
Ori == {<<y, p, r>> : y \in Turns, p \in Pitches, r \in Turns}
SimInit == /\ host \in {<< >>} \cup {<<RandomElement(Turns), RandomElement(Pitches), RandomElement(Turns)>> : n \in 1..3}
           /\ rel \in {<<RandomElement(Turns), RandomElement(Pitches), RandomElement(Turns)>> : n \in 1..8} /\ rori = <<0, 0, 0>> /\ Start0
           /\ pulses = << >>
           /\ hist = << [a |-> <<Len(host)>> \o host \o rel] >>
SimNext ==
   /\ Len(hist) < Depth
   /\ IF Len(hist) < 5 THEN
         \* the first steps make the first computation worth while
         \E m \in R(Keys), k \in R(Kinds), d \in R(Dirs) :
            IF Len(hist) < 3 THEN SrcBeam(Len(hist) - 1, k) ELSE RcvBeam(m, k, d)
      ELSE \E w \in R(1..16), o \in R(Ori), m \in R(Keys), k \in R(Kinds), d \in R(Dirs), e \in R(Dirs), i \in R(0..1),
              l \in R(Lengths), y \in R(Delays), t \in R(Travels), x \in R(Axes), v \in R(Levels), f \in R(1..12),
              p1 \in R(Powers), p2 \in R(Powers), p3 \in R(Powers), mo \in R(Modes) :
         IF w = 1 THEN TurnSrc(o) ELSE IF w = 2 THEN TurnRcv(o)
         ELSE IF w = 3 THEN RcvBeam(m, k, d) ELSE IF w = 4 THEN SrcBeam(mo, k)
         ELSE IF w = 5 /\ o[1] = 0 /\ DOMAIN rbeam # {} THEN Reset ELSE IF w = 6 /\ o[1] = 0 /\ Len(pulses) > 1 THEN Clear
         ELSE IF w \in 7..9 /\ Len(pulses) < MaxPulses /\ mo \in DOMAIN sbeam THEN
            Pulse([mode |-> mo, level |-> v, len |-> l, delay |-> y, freq |-> 2 + (f % 2), steer |-> d])
         ELSE IF w \in 10..12 /\ Len(verbs) < MaxVerbs THEN
            Verb(i, [time |-> t, len |-> (f % 3), sdir |-> d, rdir |-> e, axis |-> x, power |-> SubSeq(<<p1, p2, p3>>, 1, Len(x))])
         ELSE IF prep # << >> /\ w > 7 /\ DOMAIN rbeam # {} THEN Run ELSE IF pulses # << >> THEN Prepare ELSE RcvBeam(m, k, d)
(* properties *)
Quarter == Yaw(1)
Scaled(g) == [g EXCEPT !.pulses = [n \in DOMAIN @ |-> [@[n] EXCEPT !.level = 2 * @]]]
(* twice the source level gives twice the reverberation *)
Linear == (pulses # << >> /\ prep # << >>) =>
             LET a == Result(prep[1], verbs)  b == Result(Scaled(prep[1]), verbs)
             IN \A c \in DOMAIN a : \A n \in DOMAIN a[c] : b[c][n].w = 2 * a[c][n].w
(* turning sensors, host and ocean together changes nothing *)
Around(v) == [v EXCEPT !.sdir = App(Quarter, @), !.rdir = App(Quarter, @)]
TurnedState(g) == [g EXCEPT !.host = IF @ = << >> THEN @ ELSE <<@[1] + 1, @[2], @[3]>>,
                            !.rel = IF g.host = << >> THEN <<@[1] + 1, @[2], @[3]>> ELSE @,
                            !.rori = <<@[1] + 1, @[2], @[3]>>]
Isotropic == prep # << >> => Result(prep[1], verbs) = Result(TurnedState(prep[1]), [n \in DOMAIN verbs |-> Around(verbs[n])])
(* pulses do not overlap *)
InTurn == \A n \in 2..Len(pulses) : Start(pulses, n) >= Start(pulses, n - 1) + pulses[n-1].len
(* one channel for each beam, each with every return *)
Rows == prep # << >> => /\ DOMAIN Result(prep[1], verbs) = 1..Cardinality(DOMAIN rbeam)
                        /\ \A c \in DOMAIN Result(prep[1], verbs) : Len(Result(prep[1], verbs)[c]) = Len(verbs) * Len(prep[1].pulses)
(* motion after a computation was started does not change it *)
Frozen == [][(hist'[Len(hist')].a[1] = 10) => out' = Result(prep[1], verbs)]_vars
Emit == Len(hist) = Depth => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
