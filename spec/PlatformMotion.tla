--------------------------- MODULE PlatformMotion ---------------------------
(***************************************************************************)
(* Motion of platforms and of the platforms attached to them, on an integer *)
(* lattice: positions in metres north, east and up of a reference point,     *)
(* rotations by multiples of 90 degrees (exact integer matrices).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS P,        \* platforms
          KeyOf,    \* platform -> key (two of them share one)
          Angles,   \* multiples of 90 degrees
          Coords, Offsets, Speeds, Steps,
          Depth,
          StaleHost,  \* mutation: detached platforms keep their host
          HostFrame   \* mutation: offsets not turned into the host's orientation

KeyOfDef == <<1, 2, 3, 3>>
CoordsDef == {-7, 0, 11}
OffsetsDef == {-2, 0, 3}
TinyDef == {0, 1}
MiniDef == {2}
OneDef == {1}
KeyOf3 == <<1, 2, 2>>
VARIABLES mot,   \* platform -> [t, pos, rot, v]
          host,  \* platform -> host or 0
          off, mnt,  \* platform -> mounting offset and orientation
          fresh, \* attached platforms which have not been moved on their own since
          hist
vars == <<mot, host, off, mnt, fresh, hist>>

Cos(a) == CASE a = 0 -> 1 [] a = 1 -> 0 [] a = 2 -> -1 [] a = 3 -> 0
Sin(a) == CASE a = 0 -> 0 [] a = 1 -> 1 [] a = 2 -> 0 [] a = 3 -> -1
Mul(A, B) == [r \in 1..3 |-> [c \in 1..3 |-> A[r][1]*B[1][c] + A[r][2]*B[2][c] + A[r][3]*B[3][c]]]
App(A, v) == [r \in 1..3 |-> A[r][1]*v[1] + A[r][2]*v[2] + A[r][3]*v[3]]
Add(u, v) == [r \in 1..3 |-> u[r] + v[r]]
Scale(k, v) == [r \in 1..3 |-> k * v[r]]
I3 == <<<<1,0,0>>, <<0,1,0>>, <<0,0,1>>>>
Roll(a)  == <<<<1, 0, 0>>, <<0, Cos(a), Sin(a)>>, <<0, -Sin(a), Cos(a)>>>>
Pitch(a) == <<<<Cos(a), 0, -Sin(a)>>, <<0, 1, 0>>, <<Sin(a), 0, Cos(a)>>>>
Yaw(a)   == <<<<Cos(a), -Sin(a), 0>>, <<Sin(a), Cos(a), 0>>, <<0, 0, 1>>>>
Rot(o) == Mul(Yaw(o[1]), Mul(Pitch(o[2]), Roll(o[3])))
Front(R) == <<R[1][1], R[2][1], R[3][1]>>

Kids(p) == {c \in P : host[c] = p}
RECURSIVE Up(_, _)
Up(p, h) == p # 0 /\ (p = h \/ Up(host[p], h))       \* h is p or above p
RECURSIVE Below(_, _)
Below(ps, h) == IF ps = {} THEN {} ELSE LET d == {c \in P : h[c] \in ps} IN d \cup Below(d, h)

Place(hm, o, r) == [t |-> hm.t, v |-> hm.v,
                    pos |-> Add(hm.pos, IF HostFrame THEN o ELSE App(hm.rot, o)),
                    rot |-> Mul(hm.rot, r)]
Proj(q, m, h) == <<q, m.t, m.pos[1], m.pos[2], m.pos[3], m.v>>
                 \o <<m.rot[1][1], m.rot[2][1], m.rot[3][1], m.rot[1][2], m.rot[2][2], m.rot[3][2]>> \o <<h>>
RECURSIVE Mask(_)
Mask(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN 2^x + Mask(S \ {x})
Log(act, res) == hist' = Append(hist, [a |-> act, r |-> res,
                    s |-> [q \in P |-> Proj(q, mot'[q], host'[q]) \o <<Mask({c \in P : host'[c] = q})>>]])

(* p gets motion m; everything attached below follows *)
Propagate(p, m, h) ==
   LET D == Below({p}, h)
       F[q \in P] == IF q = p THEN m ELSE IF q \in D THEN Place(F[h[q]], off'[q], mnt'[q]) ELSE mot[q]
   IN mot' = [q \in P |-> F[q]]

Init == /\ mot = [p \in P |-> [t |-> 0, pos |-> <<0, 0, 0>>, rot |-> I3, v |-> 0]]
        /\ host = [p \in P |-> 0]
        /\ off = [p \in P |-> <<0, 0, 0>>] /\ mnt = [p \in P |-> I3]
        /\ fresh = {} /\ hist = << >>

Update(p, dt, pos, o, v) ==
   /\ UNCHANGED <<host, off, mnt>>
   /\ Propagate(p, [t |-> mot[p].t + dt, pos |-> pos, rot |-> Rot(o), v |-> v], host)
   /\ fresh' = (fresh \ {p}) \cup Below({p}, host)
   /\ Log(<<1, p, mot[p].t + dt>> \o pos \o o \o <<v>>, 0)
Reckon(p, dt) ==
   /\ UNCHANGED <<host, off, mnt>>
   /\ Propagate(p, [mot[p] EXCEPT !.t = @ + dt, !.pos = Add(@, Scale(mot[p].v * dt, Front(mot[p].rot)))], host)
   /\ fresh' = (fresh \ {p}) \cup Below({p}, host)
   /\ Log(<<2, p, mot[p].t + dt>>, 0)
Attach(p, c, o, r) ==
   /\ host[c] = 0 /\ ~Up(p, c)
   /\ IF \E k \in Kids(p) : KeyOf[k] = KeyOf[c]
      THEN UNCHANGED <<mot, host, off, mnt, fresh>> /\ Log(<<3, p, c>> \o o \o r, 0)
      ELSE LET h == [host EXCEPT ![c] = p] IN
           /\ host' = h
           /\ off' = [off EXCEPT ![c] = o] /\ mnt' = [mnt EXCEPT ![c] = Rot(r)]
           /\ Propagate(p, mot[p], h)
           /\ fresh' = fresh \cup Below({p}, h)
           /\ Log(<<3, p, c>> \o o \o r, 1)
Detach(p, k) ==
   LET cs == {c \in Kids(p) : KeyOf[c] = k} IN
   /\ UNCHANGED <<mot, off, mnt>>
   /\ host' = [c \in P |-> IF c \in cs /\ ~StaleHost THEN 0 ELSE host[c]]
   /\ fresh' = fresh \ cs
   /\ Log(<<4, p, k>>, IF cs = {} THEN 0 ELSE 1)

View == <<mot, host, off, mnt, fresh>>
Vec(S) == {<<a, b, c>> : a, b, c \in S}
Next == /\ Len(hist) < Depth
        /\ \/ \E p \in P, dt \in Steps, pos \in Vec(Coords), o \in Vec(Angles), v \in Speeds : Update(p, dt, pos, o, v)
           \/ \E p \in P, dt \in Steps : Reckon(p, dt)
           \/ \E p, c \in P, o \in Vec(Offsets), r \in Vec(Angles) : Attach(p, c, o, r)
           \/ \E p \in P, k \in {KeyOf[q] : q \in P} : Detach(p, k)
(* random choice of parameters, for simulation *)
RVec(S) == <<RandomElement(S), RandomElement(S), RandomElement(S)>>
SimNext == /\ Len(hist) < Depth
           /\ \/ \E p \in {RandomElement(P)} : \E x \in {<<RVec(Coords), RVec(Angles)>>} :
                    Update(p, RandomElement(Steps), x[1], x[2], RandomElement(Speeds))
              \/ \E p \in {RandomElement(P)} : Reckon(p, RandomElement(Steps))
              \/ \E p, c \in P : \E x \in {<<RVec(Offsets), RVec(Angles)>>} : Attach(p, c, x[1], x[2])
              \/ \E p \in {RandomElement(P)} : \E k \in {KeyOf[RandomElement(P)]} : Detach(p, k)
              \/ \E p \in P : Kids(p) # {} /\ \E k \in {KeyOf[q] : q \in Kids(p)} : Detach(p, k)

(* properties *)
Rigid == \A c \in fresh : host[c] # 0 =>
            LET h == mot[host[c]] IN
            (c \in fresh /\ (host[c] \in fresh \/ host[host[c]] = 0)) =>
              /\ mot[c].t = h.t /\ mot[c].v = h.v
              /\ mot[c].rot = Mul(h.rot, mnt[c])
              /\ mot[c].pos = Add(h.pos, App(h.rot, off[c]))
Hosts == \A c \in P : host[c] # 0 => ~Up(host[c], c)
Emit == Len(hist) = Depth => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
