---------------------------- MODULE SensorPairs ----------------------------
(***************************************************************************)
(* The sensor manager: registration of sensors and the pairs it implies.    *)
(* The design maintains the pairs incrementally, from lists of the keys of  *)
(* registered sources and receivers; PairsExact states what they have to be *)
(* at any time.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS S,         \* sensor objects
          KeyOf,     \* object -> key it is created with, 0 = automatic
          Roles, MinRanges, Groups, Times, Listeners,
          Depth,
          WrongList, \* mutation: pairs of a removed receiver searched in the list of receivers
          KeepRole,  \* mutation: refused sensors stay in the lists of sources and receivers
          AnyGroup   \* mutation: sensors without group are paired too

KeyOfDef == <<1, 2, 0, 2>>
KeyOf3 == <<1, 2, 0>>
KeyOf2 == <<1, 1, 2>>
VARIABLES attr,  \* object -> [role (1 source, 2 receiver, 3 both), minr, grp, tm]
          key, maxkey, freq,
          reg,   \* registered objects
          srcs, rcvs,   \* keys of registered sources and receivers
          pairs, \* {[s, r, l]}: source object, receiver object, listener (0 none)
          hist
vars == <<attr, key, maxkey, freq, reg, srcs, rcvs, pairs, hist>>
View == <<attr, key, maxkey, freq, reg, srcs, rcvs, pairs>>

Src(a) == a.role \in {1, 3}
Rcv(a) == a.role \in {2, 3}
Max(a, b) == IF a > b THEN a ELSE b
Attrs == [role : Roles, minr : MinRanges, grp : Groups, tm : Times]
NoPair(p) == <<key[p.s], key[p.r]>>

Obj(k) == CHOOSE s \in reg : key[s] = k
Exact(R, a) == {<<s, r>> \in R \X R :
                  /\ Src(a[s]) /\ Rcv(a[r])
                  /\ IF s = r THEN a[s].minr = 0 ELSE a[s].grp # 0 /\ a[s].grp = a[r].grp}

Log(act, res) == hist' = Append(hist, [a |-> act, r |-> res,
     keys |-> [s \in S |-> key'[s]],
     reg |-> {key'[s] : s \in reg'},
     pairs |-> {<<key'[p.s], key'[p.r], p.s, p.r, p.l>> : p \in pairs'},
     bysrc |-> {<<k, {key'[p.r] : p \in {q \in pairs' : key'[q.s] = k}}>> : k \in {key'[s] : s \in S}},
     byrcv |-> {<<k, {key'[p.s] : p \in {q \in pairs' : key'[q.r] = k}}>> : k \in {key'[s] : s \in S}}])

Init == /\ attr \in [S -> {a \in Attrs : a.tm = 1}]
        /\ key = KeyOf /\ maxkey = 0 /\ freq = FALSE
        /\ reg = {} /\ srcs = {} /\ rcvs = {} /\ pairs = {} /\ hist = << >>
Flat(a) == <<a.role, a.minr, a.grp, a.tm>>
SimInit == /\ attr \in {[s \in S |-> RandomElement(Attrs)] : n \in 1..500}
           /\ key = KeyOf /\ maxkey = 0 /\ freq = FALSE
           /\ reg = {} /\ srcs = {} /\ rcvs = {} /\ pairs = {}
           /\ hist = << [a |-> <<Cardinality(S)>> \o KeyOf
                              \o Flat(attr[1]) \o Flat(attr[2]) \o Flat(attr[3]) \o Flat(attr[4])] >>

SetFreq == /\ ~freq /\ freq' = TRUE /\ UNCHANGED <<attr, key, maxkey, reg, srcs, rcvs, pairs>>
           /\ Log(<<1>>, 0)
SetAttr(s, a) ==
   /\ s \notin reg /\ attr' = [attr EXCEPT ![s] = a]
   /\ UNCHANGED <<key, maxkey, freq, reg, srcs, rcvs, pairs>>
   /\ Log(<<2, s, a.role, a.minr, a.grp, a.tm>>, 0)
Add(s, l) ==
   LET a == attr[s]
       k == IF key[s] = 0 THEN maxkey + 1 ELSE key[s]
       refuse(n) == /\ UNCHANGED <<attr, key, maxkey, freq, reg, pairs>>
                    /\ srcs' = IF KeepRole /\ Src(a) /\ n = 3 THEN srcs \cup {k} ELSE srcs
                    /\ rcvs' = IF KeepRole /\ Rcv(a) /\ n = 3 THEN rcvs \cup {k} ELSE rcvs
                    /\ Log(<<3, s, l>>, n)
   IN IF ~freq THEN refuse(1)
      ELSE IF a.tm = 0 THEN refuse(2)
      ELSE IF \E x \in reg : key[x] = k THEN refuse(3)
      ELSE /\ key' = [key EXCEPT ![s] = k]
           /\ maxkey' = Max(maxkey, k)
           /\ reg' = reg \cup {s}
           /\ srcs' = IF Src(a) THEN srcs \cup {k} ELSE srcs
           /\ rcvs' = IF Rcv(a) THEN rcvs \cup {k} ELSE rcvs
           /\ LET other(n) == CHOOSE x \in reg' : key'[x] = n
                  fits(x) == (AnyGroup \/ a.grp > 0) /\ attr[x].grp = a.grp IN
              pairs' = pairs
                \cup (IF Src(a) /\ Rcv(a) /\ a.minr = 0 THEN {[s |-> s, r |-> s, l |-> l]} ELSE {})
                \cup (IF Src(a) THEN {[s |-> s, r |-> other(n), l |-> l] : n \in {m \in rcvs' \ {k} : fits(other(m))}} ELSE {})
                \cup (IF Rcv(a) THEN {[s |-> other(n), r |-> s, l |-> l] : n \in {m \in srcs' \ {k} : fits(other(m))}} ELSE {})
           /\ UNCHANGED <<attr, freq>>
           /\ Log(<<3, s, l>>, 0)
(* removal of a registered sensor *)
Remove(s, l) ==
   /\ s \in reg
   /\ LET k == key[s]
          gone == {p \in pairs : \/ p.s = s /\ p.r = s
                                 \/ p.s = s /\ key[p.r] \in rcvs
                                 \/ p.r = s /\ key[p.s] \in (IF WrongList THEN rcvs ELSE srcs)} IN
      /\ reg' = reg \ {s} /\ srcs' = srcs \ {k} /\ rcvs' = rcvs \ {k}
      /\ pairs' = pairs \ gone
      /\ UNCHANGED <<attr, key, maxkey, freq>>
      /\ Log(<<4, s, l>>, {<<key[p.s], key[p.r], IF p.l = l THEN 0 ELSE p.l>> : p \in gone})
Reset == /\ reg # {}
         /\ reg' = {} /\ srcs' = {} /\ rcvs' = {} /\ pairs' = {} /\ freq' = FALSE /\ maxkey' = 0
         /\ UNCHANGED <<attr, key>>
         /\ Log(<<5>>, 0)

Next == /\ Len(hist) < Depth
        /\ \/ SetFreq
           \/ \E s \in S, l \in Listeners : Add(s, l) \/ Remove(s, l)
           \/ \E s \in S, a \in Attrs : SetAttr(s, a)
           \/ Reset
SimNext == /\ Len(hist) < Depth
           /\ \/ SetFreq
              \/ \E s \in S : \E l \in {RandomElement(Listeners)} : Add(s, l)
              \/ \E s \in S : \E l \in {RandomElement(Listeners)} : Remove(s, l)
              \/ \E s \in {RandomElement(S)} : \E a \in {RandomElement(Attrs)} : SetAttr(s, a)
              \/ RandomElement(1..12) = 1 /\ Reset

PairsExact == /\ {<<p.s, p.r>> : p \in pairs} = Exact(reg, attr)
              /\ Cardinality(pairs) = Cardinality(Exact(reg, attr))
KeysUnique == \A s, t \in reg : key[s] = key[t] => s = t
Lists == /\ srcs = {key[s] : s \in {x \in reg : Src(attr[x])}}
         /\ rcvs = {key[s] : s \in {x \in reg : Rcv(attr[x])}}
Emit == Len(hist) = Depth => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
