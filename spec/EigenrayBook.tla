---------------------------- MODULE EigenrayBook ----------------------------
(***************************************************************************)
(* Eigenrays of a grid of targets (numbered in row order), their totals and *)
(* the file they are written to. Pressure amplitudes are powers of ten (in   *)
(* thousandths), phases and azimuths are quarter turns, times are sixteenths *)
(* of a second and frequencies 4 and 8 Hz, so that all sums are integers.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Grids, Ids, Depth, Times, Levels, Angles, Moves,
          Cross,     \* mutation: totals also take the rays of the previous target
          Again,     \* mutation: totalling adds to the totals that exist
          Last,      \* mutation: earliest arrival is the last one added
          NoGap,     \* mutation: the file has no record for totals of targets without rays
          Push       \* mutation: a source which moves along a ray makes it longer
GridsAll == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 1>>}
GridsSmall == {<<1, 2>>}
AnglesAll == {-60, -7, 0, 15, 80}
AnglesSmall == {0}
AnglesRight == {-90, 0, 90}
MovesSmall == {-20, 0, 20}
MovesAll == {-30, -11, 0, 7, 25}
VARIABLES grid, id, nf, coh,
          rays,    \* all rays in the order of their addition
          list,    \* target -> numbers of its rays
          first,   \* target -> earliest arrival, 0 = none
          tot,     \* target -> totals
          hist
vars == <<grid, id, nf, coh, rays, list, first, tot, hist>>
View == <<grid, id, nf, coh, rays, list, first, tot>>
N == grid[1] * grid[2]
Targets == 1..N
Amp(l) == <<1000, 100, 10, 1>>[l + 1]
Cos(q) == <<1, 0, -1, 0>>[(q % 4) + 1]
Sin(q) == <<0, 1, 0, -1>>[(q % 4) + 1]
RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(S \ {x}, f)
Turns(r, f) == f * r.time + r.phase[f]
NoTotal == [re |-> << >>, im |-> << >>, w |-> 0, t |-> 0, sd |-> 0, sx |-> 0, sy |-> 0, td |-> 0, tx |-> 0, ty |-> 0, best |-> {}]
(* totals of a target *)
Total(m) ==
   LET K == {list[m][n] : n \in DOMAIN list[m]} \cup (IF Cross /\ m > 1 THEN {list[m-1][n] : n \in DOMAIN list[m-1]} ELSE {})
       KF == K \X (1..nf)
       A(x) == Amp(rays[x[1]].level[x[2]])
       W(x) == A(x) * A(x)
       S(val(_)) == Sum(KF, [x \in KF |-> W(x) * val(rays[x[1]])])
       old == IF Again THEN tot[m] ELSE NoTotal
       top == {x \in KF : \A y \in KF : A(y) <= A(x)}
       one(r) == 1  tm(r) == r.time  sd(r) == r.sde  td(r) == r.tde
       sx(r) == Sin(r.saz)  sy(r) == Cos(r.saz)  tx(r) == Sin(r.taz)  ty(r) == Cos(r.taz)
       prev(s, f) == IF Len(s) >= f THEN s[f] ELSE 0
   IN [re |-> [f \in 1..nf |-> prev(old.re, f) + Sum(K, [k \in K |-> Amp(rays[k].level[f]) * (IF coh THEN Cos(Turns(rays[k], f)) ELSE 1)])],
       im |-> [f \in 1..nf |-> prev(old.im, f) + Sum(K, [k \in K |-> IF coh THEN Amp(rays[k].level[f]) * Sin(Turns(rays[k], f)) ELSE 0])],
       w |-> S(one), t |-> S(tm), sd |-> S(sd), sx |-> S(sx), sy |-> S(sy), td |-> S(td), tx |-> S(tx), ty |-> S(ty),
       best |-> {x[1] : x \in top}]
(* the file: for each target its total and then its rays *)
RECURSIVE FileFrom(_)
FileFrom(m) == IF m > N THEN << >>
               ELSE (IF NoGap /\ list[m] = << >> THEN << >> ELSE <<0 - m>>) \o list[m] \o FileFrom(m + 1)
File == FileFrom(1)
Before(m) == Cardinality({n \in DOMAIN File : \E k \in 1..(m - 1) : File[n] = 0 - k \/ \E j \in DOMAIN list[k] : File[n] = list[k][j]})
Tables == [m \in Targets |-> <<Before(m), Before(m) + 1, Len(list[m])>>]
Find(i) == IF i = 0 THEN 1
           ELSE IF \E m \in Targets : id[m] = i THEN CHOOSE m \in Targets : id[m] = i /\ \A n \in Targets : id[n] = i => m <= n ELSE 0
(* Rays of a target after source and target have moved by s and t (metres to *)
(* the east, north and up): change of length at the source and the target.   *)
Way(z, d, v) == IF d # 0 THEN (d \div 90) * v[3] ELSE Sin(z) * v[1] + Cos(z) * v[2]
Reckoned(m, s, t) == [n \in DOMAIN list[m] |->
   LET r == rays[list[m][n]] IN <<(IF Push THEN 1 ELSE -1) * Way(r.saz, r.sde, s), Way(r.taz, r.tde, t)>>]
Log(act) == hist' = Append(hist, [a |-> act, list |-> list', first |-> first', tot |-> tot',
                                  find |-> {<<i, Find(i)>> : i \in Ids \cup {0}}, file |-> File', tables |-> Tables'])
Add(m, r) ==
   /\ rays' = Append(rays, r)
   /\ list' = [list EXCEPT ![m] = Append(@, Len(rays) + 1)]
   /\ first' = [first EXCEPT ![m] = IF @ = 0 \/ r.time < @ \/ Last THEN r.time ELSE @]
   /\ UNCHANGED <<grid, id, nf, coh, tot>>
   /\ Log(<<1, m, r.time>> \o r.level \o r.phase \o <<r.sde, r.saz, r.tde, r.taz>>)
Total_ == /\ tot' = [m \in Targets |-> Total(m)]
          /\ UNCHANGED <<grid, id, nf, coh, rays, list, first>>
          /\ Log(<<2>>)
Reckon(m, s, t) == /\ UNCHANGED <<grid, id, nf, coh, rays, list, first, tot>>
                   /\ hist' = Append(hist, [a |-> <<3, m>> \o s \o t, list |-> list, r |-> Reckoned(m, s, t)])
Base == /\ rays = << >> /\ list = [m \in Targets |-> << >>] /\ first = [m \in Targets |-> 0]
        /\ tot = [m \in Targets |-> NoTotal]
Init == /\ grid \in Grids /\ id \in [Targets -> Ids] /\ nf = 1 /\ coh \in BOOLEAN /\ Base
        /\ hist = << [a |-> <<grid[1], grid[2], nf, IF coh THEN 1 ELSE 0>> \o id] >>
Ray(t, l, p, d, z) == [time |-> t, level |-> l, phase |-> p, sde |-> d, saz |-> z, tde |-> 0 - d, taz |-> (z + 2) % 4]
Next == /\ Len(hist) < Depth
        /\ \/ \E m \in Targets, t \in Times, l \in Levels, p \in {0, 2}, d \in Angles :
                 Add(m, Ray(t, <<l>>, <<p>>, d, (t + p) % 4))
           \/ Total_
           \/ \E m \in Targets, n \in {-20, 20} : list[m] # << >> /\ n \in Moves /\ Reckon(m, <<n, 0, 0>>, <<0, 0, 0>>)
R(set) == {RandomElement(set)}
SimInit == /\ grid \in Grids /\ nf \in {1, 2} /\ coh \in BOOLEAN
           /\ id \in {[m \in Targets |-> RandomElement(Ids)] : n \in 1..20} /\ Base
           /\ hist = << [a |-> <<grid[1], grid[2], nf, IF coh THEN 1 ELSE 0>> \o id] >>
SimNext == /\ Len(hist) < Depth
           /\ \E w \in R(1..5), m \in R(Targets), t \in R(Times), l1 \in R(Levels), l2 \in R(Levels), p1 \in R(0..3), p2 \in R(0..3),
                 d \in R(Angles), e \in R(Angles), z \in R(0..3), y \in R(0..3),
                 v1 \in R(Moves), v2 \in R(Moves), v3 \in R(Moves), v4 \in R(Moves), v5 \in R(Moves), v6 \in R(Moves) :
              IF w = 5 THEN Total_
              ELSE IF w = 4 /\ Moves # {0} THEN Reckon(m, <<v1, v2, v3>>, <<v4, v5, v6>>)
              ELSE Add(m, [time |-> t, level |-> IF nf = 1 THEN <<l1>> ELSE <<l1, l2>>, phase |-> IF nf = 1 THEN <<p1>> ELSE <<p1, p2>>,
                           sde |-> d, saz |-> z, tde |-> e, taz |-> y])
(* properties *)
Partition == \A k \in 1..Len(rays) : Cardinality({m \in Targets : \E n \in DOMAIN list[m] : list[m][n] = k}) = 1
InOrder == \A m \in Targets : \A a, b \in DOMAIN list[m] : a < b => list[m][a] < list[m][b]
Earliest == \A m \in Targets : \A n \in DOMAIN list[m] : first[m] # 0 /\ first[m] <= rays[list[m][n]].time
Own == \A m \in Targets : tot[m].best \subseteq {list[m][n] : n \in DOMAIN list[m]}
(* totalling again changes nothing *)
Idempotent == [][Len(hist) > 1 /\ hist[Len(hist)].a = <<2>> /\ hist'[Len(hist')].a = <<2>> => tot' = tot]_vars
(* the tables of the file delimit the records of each target *)
Delimits == \A m \in Targets : /\ Tables[m][1] < Len(File) /\ File[Tables[m][1] + 1] = 0 - m
                               /\ Tables[m][2] + Tables[m][3] <= Len(File)
                               /\ SubSeq(File, Tables[m][2] + 1, Tables[m][2] + Tables[m][3]) = list[m]
(* a source which moves towards where a ray goes makes it shorter *)
Closer == \A n \in DOMAIN hist : n > 1 /\ hist[n].a[1] = 3 =>
             \A k \in DOMAIN hist[n].r :
                LET r == rays[hist[n].list[hist[n].a[2]][k]]
                IN (r.sde = 0 /\ r.saz = 1 /\ hist[n].a[3] > 0) => hist[n].r[k][1] < 0
Emit == Len(hist) = Depth => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
