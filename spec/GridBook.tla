------------------------------ MODULE GridBook ------------------------------
(***************************************************************************)
(* Interpolation of gridded data. A grid is described by one line for each   *)
(* dimension: where the nodes are, a value for each of them, the type of       *)
(* interpolation and whether locations are limited to the axis. Values and      *)
(* slopes are exact rational numbers. The data of a grid are combined from the    *)
(* values of its lines by sums and products (forms 0..4), which every type of      *)
(* interpolation preserves, or are arbitrary (form 5, without cubic lines).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Spacings, Heights, Lengths,
          Weights,   \* mutation: slopes at the end of an interval use the spacings before it
          Two,       \* mutation: end slopes are those of a spacing of two
          NoLimit,   \* mutation: end slopes are not limited
          Loose,     \* mutation: end slopes of level intervals are not limited
          Inner,     \* mutation: locations are limited to the last but one node
          Upward     \* mutation: locations are limited as if axes were rising
VARIABLES line, form, data, hist
vars == <<line, form, data, hist>>
(***************************************************************************)
(* rational numbers                                                         *)
(***************************************************************************)
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(a, b) == LET g == Gcd(Abs(a), Abs(b))  s == IF b < 0 THEN -1 ELSE 1 IN <<s * (a \div g), s * (b \div g)>>
Whole(a) == <<a, 1>>
Mul(x, y) == LET p == Norm(x[1], y[2])  q == Norm(y[1], x[2]) IN <<p[1] * q[1], p[2] * q[2]>>
Div(x, y) == Mul(x, IF y[1] < 0 THEN <<-y[2], -y[1]>> ELSE <<y[2], y[1]>>)
Add(x, y) == LET g == Gcd(x[2], y[2]) IN Norm(x[1] * (y[2] \div g) + y[1] * (x[2] \div g), x[2] * (y[2] \div g))
Neg(x) == <<-x[1], x[2]>>
Sub(x, y) == Add(x, Neg(y))
Sign(x) == IF x[1] > 0 THEN 1 ELSE IF x[1] < 0 THEN -1 ELSE 0
LeqR(x, y) == Sign(Sub(x, y)) <= 0
AbsR(x) == <<Abs(x[1]), x[2]>>
(***************************************************************************)
(* lines                                                                    *)
(***************************************************************************)
N(l) == Len(l.x)
Dir(l) == IF N(l) > 1 /\ l.x[2] < l.x[1] THEN -1 ELSE 1
Type(l) == IF N(l) < 2 THEN -1 ELSE IF N(l) < 4 /\ l.type > 0 THEN 0 ELSE l.type
H(l, k) == l.x[k+1] - l.x[k]                                \* interval k follows node k
D(l, k) == Norm(l.y[k+1] - l.y[k], H(l, k))
(* four times the location which is q quarters of an interval after node i *)
Place(l, i, q) ==
   LET n == N(l)
   IN IF n < 2 THEN 4 * l.x[1] + 4 * (i - 1) + q
      ELSE IF i < 1 THEN 4 * l.x[1] + (4 * (i - 1) + q) * H(l, 1)
      ELSE IF i >= n THEN 4 * l.x[n] + (4 * (i - n) + q) * H(l, n - 1)
      ELSE 4 * l.x[i] + q * H(l, i)
Limit(l, v) ==
   LET n == N(l)  m == IF Inner THEN n - 1 ELSE n  g == IF Upward THEN 1 ELSE Dir(l)
   IN IF ~l.edge \/ n < 2 THEN v
      ELSE IF g * v <= g * 4 * l.x[1] THEN 4 * l.x[1]
      ELSE IF g * v >= g * 4 * l.x[m] THEN 4 * l.x[m] ELSE v
Interval(l, v) == LET c == Cardinality({i \in 1..N(l) : Dir(l) * 4 * l.x[i] <= Dir(l) * v})
                  IN IF c < 1 THEN 1 ELSE IF c > N(l) - 1 THEN N(l) - 1 ELSE c
(* slope at a node between two intervals: weighted harmonic mean, none at extremes *)
Mean(w0, d0, w1, d1) == IF Sign(d0) * Sign(d1) <= 0 THEN Whole(0)
                        ELSE Div(Mul(Whole(w0 + w1), Mul(d0, d1)), Add(Mul(Whole(w0), d1), Mul(Whole(w1), d0)))
(* slope at an end, where the next intervals are h1 and h2 *)
End(h1, d1, h2, d2) ==
   LET m == Div(Sub(Mul(Whole((IF Two THEN 2 ELSE 2 * h1) + (IF Two THEN h1 ELSE 0) + h2), d1), Mul(Whole(h1), d2)), Whole(h1 + h2))
   IN IF NoLimit THEN m
      ELSE IF Sign(m) * Sign(d1) < 0 \/ (~Loose /\ Sign(d1) = 0) THEN Whole(0)
      ELSE IF Sign(d1) * Sign(d2) < 0 /\ LeqR(AbsR(Mul(Whole(3), d1)), AbsR(m)) THEN Mul(Whole(3), d1) ELSE m
Slope(l, k) ==   \* at node k
   LET n == N(l)
   IN IF k = 1 THEN End(H(l, 1), D(l, 1), H(l, 2), D(l, 2))
      ELSE IF k = n THEN End(H(l, n-1), D(l, n-1), H(l, n-2), D(l, n-2))
      ELSE Mean(2 * H(l, k) + H(l, k-1), D(l, k-1), H(l, k) + 2 * H(l, k-1), D(l, k))
SlopeAfter(l, k) == IF ~Weights \/ k + 1 = N(l) \/ k = 1 THEN Slope(l, k + 1)
                    ELSE Mean(2 * H(l, k) + H(l, k-1), D(l, k), H(l, k) + 2 * H(l, k-1), D(l, k+1))
(* value and slope in interval k at four times a location *)
In(l, k, v) ==
   LET t == Norm(v - 4 * l.x[k], 4 * H(l, k))
       y1 == Whole(l.y[k])  y2 == Whole(l.y[k+1])
       u == Sub(Whole(1), t)
   IN IF Type(l) = -1 THEN <<IF LeqR(Norm(1, 2), t) THEN y2 ELSE y1, Whole(0)>>
      ELSE IF Type(l) = 0 THEN <<Add(y1, Mul(t, Sub(y2, y1))), D(l, k)>>
      ELSE LET a == Slope(l, k)  b == SlopeAfter(l, k)
               tt == Mul(t, t)
               rise == Sub(Mul(Whole(3), tt), Mul(Whole(2), Mul(tt, t)))
               bend == Add(Mul(b, Mul(tt, Neg(u))), Mul(a, Mul(t, Mul(u, u))))
           IN <<Add(Add(y1, Mul(rise, Sub(y2, y1))), Mul(Whole(H(l, k)), bend)), Add(Mul(a, u), Mul(b, t))>>
At(l, v) == IF N(l) < 2 THEN <<Whole(l.y[1]), Whole(0)>> ELSE LET w == Limit(l, v) IN In(l, Interval(l, w), w)
(* slopes which are allowed: of either interval at a node, and none beyond a limited axis *)
Sides(l, v) == LET w == Limit(l, v)  k == Interval(l, w)
               IN {k} \cup (IF k > 1 /\ w = 4 * l.x[k] THEN {k - 1} ELSE {})
Slopes(l, v) == IF N(l) < 2 THEN {Whole(0)}
                ELSE {In(l, k, Limit(l, v))[2] : k \in Sides(l, v)} \cup (IF Limit(l, v) # v THEN {Whole(0)} ELSE {})
(***************************************************************************)
(* arbitrary grids: the data are in the order of the indices, the first one  *)
(* being the slowest                                                         *)
(***************************************************************************)
Dims == 1..Len(line)
RECURSIVE Flat(_, _)
Flat(c, d) == IF d = 0 THEN 0 ELSE Flat(c, d - 1) * N(line[d]) + c[d] - 1
(* weights of the two nodes of interval k *)
Share(l, k, v, e) == LET t == Norm(Limit(l, v) - 4 * l.x[k], 4 * H(l, k))
                     IN IF Type(l) = -1 THEN Whole(IF LeqR(Norm(1, 2), t) THEN e ELSE 1 - e)
                        ELSE IF e = 1 THEN t ELSE Sub(Whole(1), t)
Tilt(l, k, e) == IF Type(l) = -1 THEN Whole(0) ELSE Norm(2 * e - 1, H(l, k))
Corner(l, k, e) == IF N(l) < 2 THEN 1 ELSE k + e
RECURSIVE Blend(_, _, _, _, _)
(* kk: interval of each dimension, s: dimension of the slope or 0, c: corner so far *)
Blend(v, kk, s, c, d) ==
   IF d > Len(line) THEN Whole(data[Flat(c, Len(line)) + 1])
   ELSE LET l == line[d]
            w(e) == IF N(l) < 2 THEN (IF s = d THEN Whole(0) ELSE Whole(1 - e))
                    ELSE IF s = d THEN Tilt(l, kk[d], e) ELSE Share(l, kk[d], v[d], e)
            part(e) == IF Sign(w(e)) = 0 THEN Whole(0) ELSE Mul(w(e), Blend(v, kk, s, Append(c, Corner(l, kk[d], e)), d + 1))
        IN Add(part(0), part(1))
Own(v) == [d \in Dims |-> IF N(line[d]) < 2 THEN 1 ELSE Interval(line[d], Limit(line[d], v[d]))]
GenSlopes(v, d) ==
   IF N(line[d]) < 2 THEN {Whole(0)}
   ELSE {Blend(v, [Own(v) EXCEPT ![d] = k], d, << >>, 1) : k \in Sides(line[d], v[d])}
        \cup (IF Limit(line[d], v[d]) # v[d] THEN {Whole(0)} ELSE {})
(***************************************************************************)
(* histories                                                                *)
(***************************************************************************)
Bool(b) == IF b THEN 1 ELSE 0
Query(p, bulk) ==   \* p: place in each dimension
   LET v == [d \in Dims |-> LET i == p[d][1]  q == IF Type(line[d]) = -1 /\ p[d][2] = 2 THEN 1 ELSE p[d][2] IN Place(line[d], i, q)]
   IN /\ UNCHANGED <<line, form, data>>
      /\ hist' = Append(hist, [a |-> <<IF bulk THEN 1 ELSE 0>> \o v,
            v |-> IF form = 5 THEN <<Blend(v, Own(v), 0, << >>, 1)>> ELSE [d \in Dims |-> At(line[d], v[d])[1]],
            s |-> [d \in Dims |-> IF form = 5 THEN GenSlopes(v, d) ELSE Slopes(line[d], v[d])]])
SetType(d, t) == /\ line' = [line EXCEPT ![d].type = t] /\ UNCHANGED <<form, data>>
                 /\ hist' = Append(hist, [a |-> <<2, d - 1, t>>, type |-> Type(line'[d])])
SetEdge(d, b) == /\ line' = [line EXCEPT ![d].edge = b] /\ UNCHANGED <<form, data>>
                 /\ hist' = Append(hist, [a |-> <<3, d - 1, Bool(b)>>])
(* model checking: one line *)
Up(f, h) == [i \in 1..(Len(h) + 1) |-> f + (IF i > 1 THEN h[1] ELSE 0) + (IF i > 2 THEN h[2] ELSE 0) + (IF i > 3 THEN h[3] ELSE 0)
                                         + (IF i > 4 THEN h[4] ELSE 0) + (IF i > 5 THEN h[5] ELSE 0)]
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Init == /\ \E n \in Lengths, t \in {-1, 0, 1}, e \in BOOLEAN, f \in BOOLEAN :
             \E h \in [1..(n-1) -> Spacings] :
                line = << [x |-> IF f THEN Rev(Up(0, h)) ELSE Up(0, h), y |-> [i \in 1..n |-> 0], type |-> t, edge |-> e] >>
        /\ form = 0 /\ data = << >> /\ hist = << >>
Next == /\ hist = << >> /\ hist' = <<[a |-> << >>]>> /\ UNCHANGED <<form, data>>
        /\ \E y \in [1..Len(line[1].x) -> Heights] : line' = [line EXCEPT ![1].y = y]
(* simulation *)
R(set) == {RandomElement(set)}
Small(a, b) == [i \in 1..6 |-> RandomElement(a..b)]
RandomLine(gen) ==
   LET n == RandomElement(IF gen THEN 1..4 ELSE 1..6)
       f == RandomElement({-3, 0, 2})
       even == RandomElement(0..2)
       h == IF even = 0 THEN [i \in 1..(n-1) |-> 2] ELSE [i \in 1..(n-1) |-> RandomElement(Spacings)]
       up == Up(f, h)
       shape == RandomElement(0..3)
       y == IF shape = 0 THEN [i \in 1..n |-> RandomElement(-3..3)]
            ELSE IF shape = 1 THEN LET c == Small(0, 2) IN [i \in 1..n |-> Up(-2, c)[i]]
            ELSE IF shape = 2 THEN [i \in 1..n |-> 1 - up[i]]
            ELSE [i \in 1..n |-> RandomElement(0..1)]
       fall == RandomElement(BOOLEAN)
   IN [x |-> IF fall THEN Rev(up) ELSE up, y |-> y, type |-> 0, edge |-> TRUE]
RECURSIVE Product(_, _)
Product(l, d) == IF d = 0 THEN 1 ELSE Len(l[d].x) * Product(l, d - 1)
RECURSIVE Describe(_)
Describe(l) == IF l = << >> THEN << >>
               ELSE <<Len(l[1].x)>> \o l[1].x \o l[1].y \o Describe(Tail(l))
RandomGrid(k) ==
   LET f == RandomElement(0..6)  g == IF f = 6 THEN 5 ELSE f
       nd == IF g \in {0, 1, 5} THEN RandomElement(1..3) ELSE 3
       l == [d \in 1..nd |-> RandomLine(g = 5)]
       dt == IF g = 5 THEN [i \in 1..Product(l, nd) |-> RandomElement(-9..9)] ELSE << >>
       vec == RandomElement(0..2)
       how == RandomElement(0..1)
   IN [line |-> l, form |-> g, data |-> dt, a |-> <<nd, g, vec, how>> \o Describe(l) \o dt]
SimInit == \E g \in {RandomGrid(k) : k \in 1..200} :
              /\ line = g.line /\ form = g.form /\ data = g.data /\ hist = <<[a |-> g.a]>>
SimNext == /\ Len(hist) < Depth
           /\ \E w \in R(1..10), d \in R(Dims), t \in R(IF form = 5 THEN -1..0 ELSE -1..1), b \in R(BOOLEAN),
                 i1 \in R(0..7), i2 \in R(0..7), i3 \in R(0..7), q1 \in R(0..3), q2 \in R(0..3), q3 \in R(0..3) :
              LET i == <<i1, i2, i3>>  q == <<q1, q2, q3>>
              IN IF w <= 2 \/ Len(hist) <= Len(line) THEN LET e == IF Len(hist) <= Len(line) THEN Len(hist) ELSE d IN SetType(e, t)
                 ELSE IF w = 3 THEN SetEdge(d, b)
                 ELSE Query([e \in Dims |-> <<i[e] % (N(line[e]) + 2), q[e]>>], w > 8)
(***************************************************************************)
(* properties of a line                                                     *)
(***************************************************************************)
L == line[1]
Everywhere == (0..(N(L) + 1)) \X (0..3)
Inside == (1..(N(L) - 1)) \X (0..3)
Val(p) == At(L, Place(L, p[1], p[2]))[1]
Nodes == \A k \in 1..N(L) : Val(<<k, 0>>) = Whole(L.y[k])
Between == \A p \in Inside : LET a == L.y[p[1]]  b == L.y[p[1] + 1]
                             IN LeqR(Whole(IF a < b THEN a ELSE b), Val(p)) /\ LeqR(Val(p), Whole(IF a < b THEN b ELSE a))
Steady == Type(L) >= 0 => \A p \in Inside : p[2] = 3 \/
             LET a == Val(p)  b == Val(<<p[1], p[2] + 1>>) IN Sign(Sub(b, a)) * (L.y[p[1] + 1] - L.y[p[1]]) >= 0
Straight == (Type(L) >= 0 /\ \A k \in 1..(N(L) - 1) : D(L, k) = D(L, 1)) =>
               \A p \in Everywhere :
                  LET v == Place(L, p[1], p[2])
                  IN (~L.edge \/ p \in Inside) => At(L, v) = <<Add(Whole(L.y[1]), Mul(Norm(v - 4 * L.x[1], 4), D(L, 1))), D(L, 1)>>
Smooth == Type(L) = 1 => \A k \in 2..(N(L) - 1) : In(L, k - 1, 4 * L.x[k]) = In(L, k, 4 * L.x[k])
Limited == (L.edge /\ N(L) > 1) => \A p \in Everywhere :
              /\ (p[1] < 1 => Val(p) = Whole(L.y[1]))
              /\ (p[1] >= N(L) => Val(p) = Whole(L.y[N(L)]))
Extended == (~L.edge /\ Type(L) = 0) => \A p \in Everywhere :
              LET v == Place(L, p[1], p[2])  k == IF p[1] < 1 THEN 1 ELSE N(L) - 1
              IN p \in Inside \/ Val(p) = Add(Whole(L.y[k]), Mul(Norm(v - 4 * L.x[k], 4), D(L, k)))
Mirrored == LET m == [L EXCEPT !.x = Rev(@), !.y = Rev(@)]
            IN \A p \in Everywhere : (Type(L) = -1 /\ p[2] = 2) \/ At(m, Place(L, p[1], p[2]))[1] = Val(p)
View == <<line, form, data, Len(hist)>>
Emit == Len(hist) = Depth => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
