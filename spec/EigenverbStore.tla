--------------------------- MODULE EigenverbStore ---------------------------
(***************************************************************************)
(* Collections of eigenverbs: one list for each interface, files, and the    *)
(* search for the eigenverbs near a given one. Eigenverbs are numbered.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, Volumes, Slots, Depth,
          Mixed,     \* mutation: the upper and lower side of a volume share a list
          Replace,   \* mutation: reading a file replaces the list
          Whole,     \* mutation: a file has the eigenverbs of all interfaces
          Crossed,   \* mutation: launch angles and counts of the two sides are exchanged
          Weak,      \* mutation: the threshold is applied to the weakest frequency
          Square     \* mutation: the search area is a square
VolumesSmall == {0, 1}
VolumesAll == 0..3
VARIABLES nv, count, store, file,
          bi,       \* bistatic contributions: <<time, source, receiver>> in order of time
          hist
vars == <<nv, count, store, file, bi, hist>>
Interfaces == 0..(2 * nv + 1)
Side(i) == IF Mixed /\ i > 2 THEN i - (i % 2) ELSE i
Log(act) == hist' = Append(hist, [a |-> act, list |-> [i \in 1..(2 * nv + 2) |-> store'[i - 1]]])
Add(i) == /\ count' = count + 1
          /\ store' = [store EXCEPT ![Side(i)] = Append(@, count + 1)]
          /\ UNCHANGED <<nv, file, bi>>
          /\ Log(<<1, i, count + 1>>)
RECURSIVE All(_)
All(i) == IF i < 0 THEN << >> ELSE All(i - 1) \o store[i]
Write(i, f) == /\ file' = [file EXCEPT ![f] = IF Whole THEN All(2 * nv + 1) ELSE store[i]]
               /\ UNCHANGED <<nv, count, store, bi>>
               /\ Log(<<2, i, f>>)
Read(f, i) == /\ file[f] # <<0>>
              /\ Len(store[i]) + Len(file[f]) < 9
              /\ store' = [store EXCEPT ![i] = IF Replace THEN file[f] ELSE @ \o file[f]]
              /\ UNCHANGED <<nv, count, file, bi>>
              /\ Log(<<3, f, i>>)
(* Contribution of source s and receiver r at a distance of d metres: their    *)
(* powers and the scattering are given in decades (negated) for two            *)
(* frequencies; patches are one metre in size. Loss(d) is in thousandths.      *)
Loss(d) == 1204 + CASE d = 0 -> 0 [] d = 4 -> 1737 [] OTHER -> 43430
Power(p, q, x, f) == 0 - 1000 * (p[f] + q[f] + x[f])
Strong(p, q, x, d) == LET a == Power(p, q, x, 1) b == Power(p, q, x, 2)
                      IN (IF Weak THEN IF a < b THEN a ELSE b ELSE IF a > b THEN a ELSE b) - Loss(d) >= 0 - 20000
RECURSIVE Insert(_, _)
Insert(s, e) == IF s = << >> \/ e[1] < s[1][1] THEN <<e>> \o s ELSE <<s[1]>> \o Insert(Tail(s), e)
Combine(i, s, r, p, q, x, d) ==
   /\ bi' = [bi EXCEPT ![i] = IF Strong(p, q, x, d) THEN Insert(@, IF Crossed THEN <<s + r, r, s>> ELSE <<s + r, s, r>>) ELSE @]
   /\ UNCHANGED <<nv, count, store, file>>
   /\ hist' = Append(hist, [a |-> <<4, i, s, r>> \o p \o q \o x \o <<d>>, bi |-> [n \in 1..(2 * nv + 2) |-> bi'[n - 1]]])
File(i) == /\ UNCHANGED <<nv, count, store, file, bi>>
           /\ hist' = Append(hist, [a |-> <<5, i>>, bi |-> <<bi[i]>>])
Init == /\ bi = [i \in 0..7 |-> << >>] /\ nv \in Volumes /\ count = 0
        /\ store = [i \in Interfaces |-> << >>]
        /\ file = [f \in Slots |-> <<0>>]
        /\ hist = << [a |-> <<nv>>, list |-> << >>] >>
Next == /\ Len(hist) < Depth
        /\ \/ \E i \in Interfaces : Add(i)
           \/ \E i \in Interfaces, f \in Slots : Write(i, f) \/ Read(f, i)
           \/ \E i \in {1}, r \in {1, 2}, p \in {<<0, 14>>, <<9, 9>>}, q \in {<<0, 0>>, <<9, 9>>}, d \in {0, 20} :
                 Combine(i, 3, r, p, q, <<0, 0>>, d)
R(set) == {RandomElement(set)}
Lv == {0, 3, 4, 9, 14}
SimNext == /\ Len(hist) < Depth
           /\ \E w \in R(1..Kinds), i \in R(Interfaces), f \in R(Slots) :
                IF w = 12 THEN File(i)
                ELSE IF w > 6 THEN \E s \in R(1..5), r \in R(1..5), p1 \in R(Lv), p2 \in R(Lv), q1 \in R(Lv), q2 \in R(Lv),
                                      x1 \in R(Lv), x2 \in R(Lv), d \in R({0, 0, 4, 20}) :
                                   Combine(i, s, r, <<p1, p2>>, <<q1, q2>>, <<x1, x2>>, d)
                ELSE IF w = 1 THEN Write(i, f) ELSE IF w = 2 /\ file[f] # <<0>> /\ Len(store[i]) + Len(file[f]) < 9 THEN Read(f, i) ELSE Add(i)
(* ---- properties ---- *)
(* every eigenverb added is where it was added, and a file which is read adds what was written *)
Adds == [][LET h == hist'[Len(hist')].a IN
             \/ h[1] = 1 /\ store' = [store EXCEPT ![h[2]] = Append(@, h[3])]
             \/ h[1] = 2 /\ store' = store /\ file' = [file EXCEPT ![h[3]] = store[h[2]]]
             \/ h[1] = 3 /\ store' = [store EXCEPT ![h[3]] = @ \o file[h[2]]]
             \/ h[1] > 3 /\ store' = store]_vars
(* a combination adds one contribution at most, if it is strong enough at any frequency *)
Combines == [][LET h == hist'[Len(hist')].a IN h[1] = 4 =>
                 \A i \in Interfaces :
                    IF i = h[2] /\ (h[5] + h[7] + h[9] < 10 \/ h[6] + h[8] + h[10] < 10) /\ h[11] = 0
                    THEN /\ Len(bi'[i]) = Len(bi[i]) + 1
                         /\ \E k \in DOMAIN bi'[i] : bi'[i][k] = <<h[3] + h[4], h[3], h[4]>>
                    ELSE i # h[2] \/ h[11] = 20 => bi'[i] = bi[i]]_vars
Sorted == \A i \in Interfaces, k \in 1..8 : k < Len(bi[i]) => bi[i][k][1] <= bi[i][k + 1][1]
Emit == Len(hist) = Depth => PrintT(<<"BEH", ToJson(hist)>>)
(* ---- search ---- *)
(* Directions are Pythagorean (sin, cos in fifths), points are metres to the *)
(* east and north of the centre. 1 inside, 0 outside, 2 too close to say.     *)
Directions == {<<0, 5>>, <<5, 0>>, <<0, -5>>, <<-5, 0>>, <<3, 4>>, <<4, 3>>, <<4, -3>>, <<3, -4>>,
               <<-3, -4>>, <<-4, -3>>, <<-4, 3>>, <<-3, 4>>}
Shapes == {<<1000, 500>>, <<500, 1000>>}
Abs(x) == IF x < 0 THEN 0 - x ELSE x
(* 1000 times the distance in terms of the outline at 1.5 times length and width *)
Reach(d, s, x, y) ==
   LET al == Abs(d[1] * x + d[2] * y) \div 5
       ac == Abs(d[2] * x - d[1] * y) \div 5
       a == (al * 2000) \div (3 * s[1])
       c == (ac * 2000) \div (3 * s[2])
   IN IF Square THEN IF a > c THEN a ELSE c ELSE a + c
Within(d, s, x, y) == LET r == Reach(d, s, x, y) IN IF r < 920 THEN 1 ELSE IF r > 1080 THEN 0 ELSE 2
Lattice == [n \in 1..121 |-> <<231 * (((n - 1) % 11) - 5) + 37, 219 * (((n - 1) \div 11) - 5) + 53>>]
(* the search area contains the points along the direction up to 1.5 times the length,
   across it up to 1.5 times the width and nothing beyond the chords between *)
SearchArea == nv >= 0 => \A d \in Directions, s \in Shapes :
                /\ Within(d, s, (d[1] * s[1] * 13) \div 50, (d[2] * s[1] * 13) \div 50) = 1
                /\ Within(d, s, (d[1] * s[1] * 17) \div 50, (d[2] * s[1] * 17) \div 50) = 0
                /\ Within(d, s, (d[2] * s[2] * 13) \div 50, 0 - (d[1] * s[2] * 13) \div 50) = 1
                /\ Within(d, s, (d[2] * s[2] * 17) \div 50, 0 - (d[1] * s[2] * 17) \div 50) = 0
                /\ Within(d, s, (d[1] * s[1] + d[2] * s[2]) \div 5, (d[2] * s[1] - d[1] * s[2]) \div 5) = 0
SearchCases == Len(hist) = 1 /\ nv = 0 =>
   \A d \in Directions, s \in Shapes : PrintT(<<"FIND", ToJson([d |-> d, s |-> s, at |-> Lattice,
                        in |-> [n \in DOMAIN Lattice |-> Within(d, s, Lattice[n][1], Lattice[n][2])]])>>)
=============================================================================
