----------------------------- MODULE ThreadPool -----------------------------
(***************************************************************************)
(* What users of threads/thread_task, thread_pool and thread_controller     *)
(* may observe.  Tasks are created (identifier, active count), submitted to *)
(* a pool, picked from the head of its queue by at most `width` workers,    *)
(* run, and retired from the active count; pools may be destroyed or        *)
(* replaced at any time.  Calls have a begin and an end, their effect takes *)
(* place atomically in between.                                             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS Tasks, Pools, Callers, NoId

VARIABLES st,      \* task -> none making made submitting queued picked running ended retired discarded
          id,      \* task -> identifier
          ids,     \* identifiers ever assigned
          counted, \* tasks in the active count
          home,    \* task -> pool it was submitted to (0: whichever is current)
          queue,   \* pool -> waiting tasks
          width,   \* pool -> number of workers
          ps,      \* pool -> none live stopping dead
          subm,    \* tasks whose submission has not returned
          seen,    \* caller -> result of its pending observation / wait
          inst     \* identity of the current shared pool, 0 if not known
vars == <<st, id, ids, counted, home, queue, width, ps, subm, seen, inst>>

Range(s) == {s[k] : k \in DOMAIN s}
NotSeen == [k |-> "idle"]

Init == /\ st = [t \in Tasks |-> "none"]
        /\ id = [t \in Tasks |-> NoId]
        /\ ids = {}
        /\ counted = {}
        /\ home = [t \in Tasks |-> 0]
        /\ queue = [p \in Pools |-> << >>]
        /\ width = [p \in Pools |-> 0]
        /\ ps = [p \in Pools |-> "none"]
        /\ subm = {}
        /\ seen = [c \in Callers |-> NotSeen]
        /\ inst = 0

Busy(p) == {t \in Tasks : home[t] = p /\ st[t] \in {"picked", "running", "ended"}}
Active == Cardinality(counted)

--------------------------------------------------------------------------
(* creation *)
Make0(t) == /\ st[t] = "none"
            /\ st' = [st EXCEPT ![t] = "making"]
            /\ UNCHANGED <<id, ids, counted, home, queue, width, ps, subm, seen, inst>>
Count(t) == /\ st[t] = "making"
            /\ t \notin counted
            /\ counted' = counted \cup {t}
            /\ UNCHANGED <<st, id, ids, home, queue, width, ps, subm, seen, inst>>
Make1(t, n) == /\ st[t] = "making"
               /\ t \in counted
               /\ n \notin ids
               /\ ids' = ids \cup {n}
               /\ id' = [id EXCEPT ![t] = n]
               /\ st' = [st EXCEPT ![t] = "made"]
               /\ UNCHANGED <<counted, home, queue, width, ps, subm, seen, inst>>

(* a task that is never submitted is dropped *)
Drop0(t) == /\ st[t] = "made"
            /\ st' = [st EXCEPT ![t] = "dropping"]
            /\ UNCHANGED <<id, ids, counted, home, queue, width, ps, subm, seen, inst>>
Drop(t) == /\ st[t] = "dropping"
           /\ st' = [st EXCEPT ![t] = "discarded"]
           /\ counted' = counted \ {t}
           /\ UNCHANGED <<id, ids, home, queue, width, ps, subm, seen, inst>>
Drop1(t) == st[t] = "discarded" /\ UNCHANGED vars

(* submission; pool 0 means the shared pool, whichever it is at that time *)
Submit0(t, p) == /\ st[t] = "made"
                 /\ st' = [st EXCEPT ![t] = "submitting"]
                 /\ home' = [home EXCEPT ![t] = p]
                 /\ subm' = subm \cup {t}
                 /\ UNCHANGED <<id, ids, counted, queue, width, ps, seen, inst>>
Enqueue(t, p) == /\ st[t] = "submitting"
                 /\ home[t] \in {0, p}
                 /\ ps[p] \in {"live", "stopping"}
                 /\ home' = [home EXCEPT ![t] = p]
                 /\ queue' = [queue EXCEPT ![p] = Append(@, t)]
                 /\ st' = [st EXCEPT ![t] = "queued"]
                 /\ UNCHANGED <<id, ids, counted, width, ps, subm, seen, inst>>
Submit1(t) == /\ t \in subm
              /\ st[t] # "submitting"
              /\ subm' = subm \ {t}
              /\ UNCHANGED <<st, id, ids, counted, home, queue, width, ps, seen, inst>>

(* execution *)
Pick(p) == /\ queue[p] # << >>
           /\ ps[p] \in {"live", "stopping"}
           /\ Cardinality(Busy(p)) < width[p]
           /\ st' = [st EXCEPT ![Head(queue[p])] = "picked"]
           /\ queue' = [queue EXCEPT ![p] = Tail(@)]
           /\ UNCHANGED <<id, ids, counted, home, width, ps, subm, seen, inst>>
Run(t) == /\ st[t] = "picked"
          /\ st' = [st EXCEPT ![t] = "running"]
          /\ UNCHANGED <<id, ids, counted, home, queue, width, ps, subm, seen, inst>>
End(t) == /\ st[t] = "running"
          /\ st' = [st EXCEPT ![t] = "ended"]
          /\ UNCHANGED <<id, ids, counted, home, queue, width, ps, subm, seen, inst>>
Retire(t) == /\ st[t] = "ended"
             /\ st' = [st EXCEPT ![t] = "retired"]
             /\ counted' = counted \ {t}
             /\ UNCHANGED <<id, ids, home, queue, width, ps, subm, seen, inst>>

(* pools *)
Create(p, w) == /\ ps[p] = "none"
                /\ ps' = [ps EXCEPT ![p] = "live"]
                /\ width' = [width EXCEPT ![p] = w]
                /\ UNCHANGED <<st, id, ids, counted, home, queue, subm, seen, inst>>
Destroy0(p) == /\ ps[p] = "live"
               /\ ps' = [ps EXCEPT ![p] = "stopping"]
               /\ UNCHANGED <<st, id, ids, counted, home, queue, width, subm, seen, inst>>
Discard(p) == /\ ps[p] = "stopping"
              /\ queue[p] # << >>
              /\ Busy(p) = {}
              /\ LET t == Head(queue[p]) IN
                    /\ st' = [st EXCEPT ![t] = "discarded"]
                    /\ counted' = counted \ {t}
              /\ queue' = [queue EXCEPT ![p] = Tail(@)]
              /\ UNCHANGED <<id, ids, home, width, ps, subm, seen, inst>>
Destroy1(p) == /\ ps[p] = "stopping"
               /\ queue[p] = << >>
               /\ Busy(p) = {}
               /\ ps' = [ps EXCEPT ![p] = "dead"]
               /\ UNCHANGED <<st, id, ids, counted, home, queue, width, subm, seen, inst>>
(* replacing the shared pool p by q *)
Reset0(p, q, w) == /\ ps[q] = "none"
                   /\ (p # 0 => ps[p] = "live")
                   /\ ps' = [x \in Pools |-> IF x = q THEN "live" ELSE IF x = p THEN "stopping" ELSE ps[x]]
                   /\ width' = [width EXCEPT ![q] = w]
                   /\ inst' = 0
                   /\ UNCHANGED <<st, id, ids, counted, home, queue, subm, seen>>
Instance(v) == /\ inst \in {0, v}
               /\ inst' = v
               /\ UNCHANGED <<st, id, ids, counted, home, queue, width, ps, subm, seen>>

(* observing the number of active tasks *)
Look0(c) == /\ seen[c] = NotSeen
            /\ seen' = [seen EXCEPT ![c] = [k |-> "looking"]]
            /\ UNCHANGED <<st, id, ids, counted, home, queue, width, ps, subm, inst>>
Look(c) == /\ seen[c].k = "looking"
           /\ seen' = [seen EXCEPT ![c] = [k |-> "saw", v |-> Active]]
           /\ UNCHANGED <<st, id, ids, counted, home, queue, width, ps, subm, inst>>
Look1(c, v) == /\ seen[c].k = "saw"
               /\ seen[c].v = v
               /\ seen' = [seen EXCEPT ![c] = NotSeen]
               /\ UNCHANGED <<st, id, ids, counted, home, queue, width, ps, subm, inst>>

(* waiting until no task is active, or for at most max *)
Wait0(c, max) == /\ seen[c] = NotSeen
                 /\ seen' = [seen EXCEPT ![c] = [k |-> "waiting", m |-> max]]
                 /\ UNCHANGED <<st, id, ids, counted, home, queue, width, ps, subm, inst>>
WaitDone(c) == /\ seen[c].k = "waiting"
               /\ Active = 0
               /\ seen' = [seen EXCEPT ![c] = [k |-> "waited"]]
               /\ UNCHANGED <<st, id, ids, counted, home, queue, width, ps, subm, inst>>
WaitOver(c) == /\ seen[c].k = "waiting"
               /\ seen[c].m > 0
               /\ Active > 0
               /\ seen' = [seen EXCEPT ![c] = [k |-> "over", m |-> seen[c].m]]
               /\ UNCHANGED <<st, id, ids, counted, home, queue, width, ps, subm, inst>>
Wait1(c, thrown, elapsed) ==
               /\ IF thrown THEN seen[c].k = "over" /\ elapsed >= seen[c].m
                            ELSE seen[c].k = "waited"
               /\ seen' = [seen EXCEPT ![c] = NotSeen]
               /\ UNCHANGED <<st, id, ids, counted, home, queue, width, ps, subm, inst>>

(* steps which are not visible at the interface *)
Silent == \/ \E t \in Tasks : Count(t) \/ Drop(t) \/ Retire(t)
          \/ \E t \in Tasks, p \in Pools : Enqueue(t, p)
          \/ \E p \in Pools : Pick(p) \/ Discard(p)
          \/ \E c \in Callers : Look(c) \/ WaitDone(c) \/ WaitOver(c)

--------------------------------------------------------------------------
(* the properties *)
UniqueIds == \A a, b \in Tasks : a # b /\ id[a] # NoId => id[a] # id[b]
AtMostWidth == \A p \in Pools : Cardinality({t \in Tasks : home[t] = p /\ st[t] = "running"}) <= width[p]
DeadIsDead == \A p \in Pools, t \in Tasks : ps[p] = "dead" /\ home[t] = p => st[t] \in {"retired", "discarded"}
ActiveExact == counted = {t \in Tasks : st[t] \in {"made", "dropping", "submitting", "queued", "picked", "running", "ended"}}
                         \cup {t \in counted : st[t] = "making"}
Fifo == \A p \in Pools, t \in Tasks :   \* when t starts, fewer than width earlier tasks wait
          st[t] = "picked" /\ home[t] = p => t \notin Range(queue[p])
=============================================================================
