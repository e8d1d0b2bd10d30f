---------------------------- MODULE SequenceBook ----------------------------
(***************************************************************************)
(* Axes of interpolation: monotonic sequences and the lookups in them.       *)
(* Elements are integers (real elements are multiples of val * scale / den, *)
(* those of ray fans are numbered); lookups are made at quarters of the       *)
(* intervals inside the sequence and beyond both of its ends, so that four    *)
(* times their value is an integer. Each kind of sequence is looked up by its  *)
(* own algorithm; what they must return is defined without them.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Firsts, Steps, Sizes, Ratios, Tables, Scales, Depth, Beyond,
          NoClamp,   \* mutation: intervals beyond the end
          Rising,    \* mutation: tables are looked up as if they were rising
          Strict,    \* mutation: an element belongs to the interval on its left
          Past,      \* mutation: the neighbour of the last interval is not tested
          Zero,      \* mutation: beyond zero a logarithmic sequence is at its other end
          Relative,  \* mutation: rebuilding compares second differences with the values
          Exclude    \* mutation: limits of a clip are excluded
FirstsAll == {-7, -1, 0, 2, 100}
FirstsSmall == {-1, 2}
StepsAll == {-5, -1, 1, 2, 3}
StepsSmall == {-1, 2}
\* first value, numerator and denominator of the ratio
RatiosAll == {<<1, 2, 1>>, <<3, 3, 1>>, <<-2, 2, 1>>, <<64, 1, 2>>, <<243, 2, 3>>, <<32, 3, 2>>, <<-243, 1, 3>>}
RatiosSmall == {<<1, 2, 1>>, <<4, 1, 2>>, <<-1, 3, 1>>}
TablesAll == {<<-1, 0, 5>>, <<1000000, 1000001, 1000003>>, <<1, 2, 4, 9>>, <<9, 4, 2, 1>>, <<-8, -4, -2, -1>>, <<0, 1, 3, 4>>,
              <<5, 3, -2, -3, -9, -10>>, <<2, 4, 8, 15, 16>>, <<7>>, <<3, 8>>, <<8, 3>>, <<1, 3, 5, 7>>, <<-2, 1, 6, 7>>, <<10, 20, 40, 80>>,
              <<0, 100, 201, 301>>, <<1000, 1001, 1003, 1004>>, <<1, 10, 100, 1001>>, <<-5, -4, 0, 1, 9, 10, 30>>, <<16, 8, 4, 3>>}
TablesSmall == {<<-1, 0, 5>>, <<20000, 20001, 20003>>, <<1, 2, 4, 9>>, <<9, 4, 2>>, <<7>>}
VARIABLES kind, val, den, scale, hist
vars == <<kind, val, den, scale, hist>>
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(s) == IF Len(s) > 1 /\ s[2] < s[1] THEN -1 ELSE 1
(* value of a lookup, times four: q quarters of an interval after element i *)
Value(s, i, q) ==
   LET n == Len(s)
       lo == IF n < 2 THEN 1 ELSE s[2] - s[1]
       hi == IF n < 2 THEN 1 ELSE s[n] - s[n-1]
   IN IF i < 0 THEN 4 * s[1] + (4 * i + q) * lo
      ELSE IF i >= n - 1 THEN 4 * s[n] + (4 * (i - n + 1) + q) * hi
      ELSE 4 * s[i+1] + q * (s[i+2] - s[i+1])
Places(s) == [k \in 1..(4 * (Len(s) + 2 * Beyond)) |-> Value(s, (k - 1) \div 4 - Beyond, (k - 1) % 4)]
(***************************************************************************)
(* algorithms                                                               *)
(***************************************************************************)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
Clamp(n, i) == IF NoClamp THEN Max(0, Min(n - 1, i)) ELSE Max(0, Min(n - 2, i))
Floor(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
Linear(s, v) == Clamp(Len(s), Floor(v - 4 * s[1], 4 * (IF Len(s) < 2 THEN 1 ELSE s[2] - s[1])))
Table(s, v) == LET g == IF Rising THEN 1 ELSE Sgn(s)
                   below == {i \in DOMAIN s : IF Strict THEN g * 4 * s[i] < g * v ELSE g * 4 * s[i] <= g * v}
               IN Clamp(Len(s), Cardinality(below) - 1)
Logarithm(s, v) ==
   IF Len(s) < 2 THEN 0
   ELSE LET grows == Abs(s[2]) > Abs(s[1])
            away == IF s[1] > 0 THEN v <= 0 ELSE v >= 0
            beyond == {i \in DOMAIN s : IF grows THEN Abs(v) >= 4 * Abs(s[i]) ELSE Abs(v) <= 4 * Abs(s[i])}
        IN IF away THEN (IF grows # Zero THEN 0 ELSE Len(s) - 2) ELSE Clamp(Len(s), Cardinality(beyond) - 1)
Index(k, s, v) == CASE k = "linear" -> Linear(s, v) [] k = "log" -> Logarithm(s, v) [] OTHER -> Table(s, v)
Nearest(k, s, v) == LET i == Index(k, s, v) IN
   IF Past /\ i + 2 > Len(s) THEN i + 1
   ELSE IF i + 1 < Len(s) /\ Abs(4 * s[i+2] - v) <= Abs(4 * s[i+1] - v) THEN i + 1 ELSE i
Even(s) == IF Relative THEN \A i \in 2..(Len(s) - 1) : s[i] # 0 => 10000 * Abs(s[i+1] - 2 * s[i] + s[i-1]) <= Abs(s[i])
           ELSE \A i \in 2..(Len(s) - 1) : s[i+1] - s[i] = s[i] - s[i-1]
Geometric(s) == (\A i \in DOMAIN s : s[i] * s[1] > 0) /\ \A i \in 2..(Len(s) - 1) : s[i] * s[i] = s[i-1] * s[i+1]
\* the large tables overflow the test for logarithmic spacing, and are not
Best(s) == IF Even(s) THEN "linear" ELSE IF Abs(s[1]) < 30000 /\ Geometric(s) THEN "log" ELSE "table"
(* values of the sequence which is built *)
Built(k, s) == IF k # "linear" \/ Len(s) < 2 THEN s ELSE [i \in DOMAIN s |-> s[1] + ((i - 1) * (s[Len(s)] - s[1])) \div (Len(s) - 1)]
Inside(s, a, b) == SelectSeq(s, LAMBDA x : IF Exclude THEN a < 4 * x /\ 4 * x < b ELSE a <= 4 * x /\ 4 * x <= b)
Reverse(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
(***************************************************************************)
(* histories                                                                *)
(***************************************************************************)
Shown(k, s) == [find |-> [p \in DOMAIN Places(s) |-> Index(k, s, Places(s)[p])], near |-> [p \in DOMAIN Places(s) |-> Nearest(k, s, Places(s)[p])]]
Step(a) == hist' = Append(hist, [a |-> a, kind |-> kind', val |-> val', den |-> den', find |-> Shown(kind', val').find,
                                 near |-> Shown(kind', val').near])
Made(k, s, a) == /\ kind = k /\ val = s /\ den = 1
                 /\ hist = <<[a |-> <<scale>> \o a, kind |-> k, val |-> s, den |-> 1, find |-> Shown(k, s).find, near |-> Shown(k, s).near]>>
RECURSIVE Powers(_, _, _, _)
Powers(f, p, q, n) == IF n = 1 THEN <<f>> ELSE LET s == Powers(f, p, q, n - 1) IN Append(s, (s[n-1] * p) \div q)
Divides(f, p, q, n) == LET s == Powers(f, p, q, n) IN \A i \in 2..n : s[i] * q = s[i-1] * p
Progression(f, d, n) == [i \in 1..n |-> f + (i - 1) * d]
MakeLinear(f, d, n, c, e) == Made("linear", Progression(f, d, n), <<c, n, f, d, e>>)
MakeLog(r, n, c, e) == Divides(r[1], r[2], r[3], n) /\ Made("log", Powers(r[1], r[2], r[3], n), <<3, n, r[1], r[2], r[3], c, e>>)
MakeTable(s, c) == Made("table", s, <<4, Len(s), c>> \o s)
\* fans: first angle, last angle, centre and spread
Fans == {<<-90, 90, 0, 6>>, <<90, -90, 0, 6>>, <<-60, 60, 20, 6>>, <<-80, -10, -30, 2>>, <<0, 50, 60, 5>>}
MakeFan(f, n) == Made("fan", Progression(0, 1, n), <<5, n>> \o f)
Base == /\ scale \in Scales
        /\ \/ \E f \in Firsts, d \in Steps, n \in Sizes, c \in {0, 1, 2} : \E e \in IF c = 2 THEN 0..3 ELSE {0} : MakeLinear(f, d, n, c, e)
           \/ \E r \in Ratios, n \in Sizes, c \in {0, 1, 2} : \E e \in IF c = 2 THEN 0..1 ELSE {0} : MakeLog(r, n, c, e)
           \/ \E s \in Tables, c \in 0..2 : MakeTable(s, c)
           \/ \E f \in Fans, n \in Sizes : MakeFan(f, n)
Keep(k) == IF kind = "fan" THEN "fan" ELSE k
(* the values within two limits *)
Clip(i, q, j, r) ==
   LET a == Value(val, i, q)  b == Value(val, j, r)  s == Inside(val, Min(a, b), Max(a, b))
   IN IF s = << >> THEN UNCHANGED <<kind, val, den>> /\ Step(<<0>>)
      ELSE /\ val' = Built(Best(s), s) /\ kind' = Keep(Best(s)) /\ UNCHANGED den
           /\ Step(<<1, i, q, j, r>>)
Rebuild(c) == /\ val' = Built(Best(val), val) /\ kind' = Keep(Best(val)) /\ UNCHANGED den /\ Step(<<2, c>>)
Mirror(c) == LET s == Reverse(val) IN /\ val' = Built(Best(s), s) /\ kind' = Keep(Best(s)) /\ UNCHANGED den /\ Step(<<3, c>>)
(* evenly spaced sequences with more elements in the first and last interval *)
Augment(h) == IF kind = "linear" /\ Len(val) > 2 /\ den = 1 /\ Len(hist) < 3
              THEN LET n == Len(val)  d == val[2] - val[1]
                       s == [i \in 1..h |-> h * val[1] + (i - 1) * d] \o [i \in 1..(n - 2) |-> h * val[i+1]]
                            \o [i \in 1..h |-> h * val[n-1] + i * d]
                   IN val' = s /\ kind' = "table" /\ den' = h /\ Step(<<4, 2 * (h - 1)>>)
              ELSE UNCHANGED <<kind, val, den>> /\ Step(<<0>>)
Init == Base
Next == /\ Len(hist) < Depth /\ UNCHANGED scale
        /\ \/ \E i \in -1..Len(val), j \in -1..Len(val), q \in {0, 1}, r \in {0, 1} : Clip(i, q, j, r)
           \/ Rebuild(0) \/ Mirror(0) \/ Augment(2)
R(set) == {RandomElement(set)}
SimNext == /\ Len(hist) < Depth /\ UNCHANGED scale
           /\ \E w \in R(1..6), c \in R(0..2), i \in R(-1..Len(val)), j \in R(-1..Len(val)), q \in R(0..3), r \in R(0..3), h \in R(1..4) :
                 IF w <= 3 THEN Clip(i, q, j, r) ELSE IF w = 4 THEN Rebuild(c) ELSE IF w = 5 THEN Mirror(c) ELSE Augment(h)
(***************************************************************************)
(* properties                                                               *)
(***************************************************************************)
(* position of a value relative to an element, in the direction of the sequence *)
Reached(s, i, v) == Sgn(s) * v >= Sgn(s) * 4 * s[i]
Contains(s, i, v) ==   \* interval i, counted from zero, is the one to use for v
   IF Len(s) < 2 THEN i = 0
   ELSE /\ i \in 0..(Len(s) - 2)
        /\ Reached(s, i + 1, v) \/ i = 0
        /\ ~Reached(s, i + 2, v) \/ i = Len(s) - 2
Lookup == \A p \in DOMAIN Places(val) : Contains(val, Index(kind, val, Places(val)[p]), Places(val)[p])
Closest == \A p \in DOMAIN Places(val) :
              LET v == Places(val)[p]  i == Nearest(kind, val, v)
              IN i \in 0..(Len(val) - 1) /\ \A j \in DOMAIN val : Abs(4 * val[i+1] - v) <= Abs(4 * val[j] - v)
Monotonic == \A i \in 2..Len(val) : Sgn(val) * val[i] > Sgn(val) * val[i-1]
Elements(s) == {s[i] : i \in DOMAIN s}
Clipped == [][LET a == hist'[Len(hist')].a IN a[1] = 1 =>
                LET x == Value(val, a[2], a[3])  y == Value(val, a[4], a[5])
                IN Elements(val') = {v \in Elements(val) : Min(x, y) <= 4 * v /\ 4 * v <= Max(x, y)} /\ (Len(val') < 2 \/ Sgn(val') = Sgn(val))]_vars
Rebuilt == [][LET a == hist'[Len(hist')].a IN (a[1] = 2 => val' = val) /\ (a[1] = 3 => val' = Reverse(val))]_vars
Augmented == [][LET a == hist'[Len(hist')].a IN a[1] = 4 => {den' * v : v \in Elements(val)} \subseteq Elements(val') /\ Len(val') = Len(val) + a[2]]_vars
View == <<kind, val, den, scale, Len(hist)>>
Emit == Len(hist) = Depth => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
