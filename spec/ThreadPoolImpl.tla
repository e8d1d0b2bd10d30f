--------------------------- MODULE ThreadPoolImpl ---------------------------
(* The pool as it is implemented: a queue guarded by a mutex, workers that   *)
(* poll it, a stop flag and joins.  TLC checks that it refines ThreadPool,   *)
(* that the calls end, and that each of the mutations below does not.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Tasks, Workers, NoId,
          AtomicId,        \* identifier taken in one step
          HoldLockToJoin,  \* destructor joins while it owns the mutex
          DiscardCounts,   \* tasks left in the queue leave the active count
          PopBack,         \* workers take the youngest task
          StopBeforeEnd    \* destructor returns without joining

VARIABLES cpc, tmp, tid, next, nactive, lock, q, running, wpc, wtask, dpc, est, wait
vars == <<cpc, tmp, tid, next, nactive, lock, q, running, wpc, wtask, dpc, est, wait>>

Init == /\ cpc = [t \in Tasks |-> "new"]
        /\ tmp = [t \in Tasks |-> 0]
        /\ tid = [t \in Tasks |-> NoId]
        /\ next = 0 /\ nactive = 0 /\ lock = "free"
        /\ q = << >> /\ running = TRUE
        /\ wpc = [w \in Workers |-> "top"]
        /\ wtask = [w \in Workers |-> 0]
        /\ dpc = "idle"
        /\ est = [t \in Tasks |-> "none"]
        /\ wait = "idle"

(* a client thread creates a task and submits it *)
C_begin(t) == /\ cpc[t] = "new"
              /\ dpc = "idle"
              /\ cpc' = [cpc EXCEPT ![t] = "id"]
              /\ UNCHANGED <<tmp, tid, next, nactive, lock, q, running, wpc, wtask, dpc, est, wait>>
C_id(t) == /\ cpc[t] = "id"
           /\ tmp' = [tmp EXCEPT ![t] = next]
           /\ next' = IF AtomicId THEN next + 1 ELSE next
           /\ cpc' = [cpc EXCEPT ![t] = "inc"]
           /\ UNCHANGED <<tid, nactive, lock, q, running, wpc, wtask, dpc, est, wait>>
C_inc(t) == /\ cpc[t] = "inc"
            /\ next' = IF AtomicId THEN next ELSE next + 1
            /\ cpc' = [cpc EXCEPT ![t] = "count"]
            /\ UNCHANGED <<tmp, tid, nactive, lock, q, running, wpc, wtask, dpc, est, wait>>
C_count(t) == /\ cpc[t] = "count"
              /\ nactive' = nactive + 1
              /\ cpc' = [cpc EXCEPT ![t] = "ret"]
              /\ UNCHANGED <<tmp, tid, next, lock, q, running, wpc, wtask, dpc, est, wait>>
C_ret(t) == /\ cpc[t] = "ret"
            /\ tid' = [tid EXCEPT ![t] = tmp[t]]
            /\ cpc' = [cpc EXCEPT ![t] = "made"]
            /\ UNCHANGED <<tmp, next, nactive, lock, q, running, wpc, wtask, dpc, est, wait>>
C_submit(t) == /\ cpc[t] = "made"
               /\ dpc = "idle"
               /\ cpc' = [cpc EXCEPT ![t] = "lock"]
               /\ UNCHANGED <<tmp, tid, next, nactive, lock, q, running, wpc, wtask, dpc, est, wait>>
C_lock(t) == /\ cpc[t] = "lock"
             /\ lock = "free"
             /\ lock' = "client"
             /\ cpc' = [cpc EXCEPT ![t] = "push"]
             /\ UNCHANGED <<tmp, tid, next, nactive, q, running, wpc, wtask, dpc, est, wait>>
C_push(t) == /\ cpc[t] = "push"
             /\ q' = Append(q, t)
             /\ est' = [est EXCEPT ![t] = "queued"]
             /\ lock' = "free"
             /\ cpc' = [cpc EXCEPT ![t] = "pushed"]
             /\ UNCHANGED <<tmp, tid, next, nactive, running, wpc, wtask, dpc, wait>>
C_return(t) == /\ cpc[t] = "pushed"
               /\ cpc' = [cpc EXCEPT ![t] = "done"]
               /\ UNCHANGED <<tmp, tid, next, nactive, lock, q, running, wpc, wtask, dpc, est, wait>>
Client(t) == C_begin(t) \/ C_id(t) \/ C_inc(t) \/ C_count(t) \/ C_ret(t) \/ C_submit(t) \/ C_lock(t) \/ C_push(t) \/ C_return(t)

(* a worker *)
W_top(w) == /\ wpc[w] = "top"
            /\ wpc' = [wpc EXCEPT ![w] = IF running THEN "lock" ELSE "exit"]
            /\ UNCHANGED <<cpc, tmp, tid, next, nactive, lock, q, running, wtask, dpc, est, wait>>
W_lock(w) == /\ wpc[w] = "lock"
             /\ lock = "free"
             /\ lock' = "worker"
             /\ wpc' = [wpc EXCEPT ![w] = "look"]
             /\ UNCHANGED <<cpc, tmp, tid, next, nactive, q, running, wtask, dpc, est, wait>>
W_look(w) == /\ wpc[w] = "look"
             /\ lock' = "free"
             /\ IF q = << >>
                THEN /\ wpc' = [wpc EXCEPT ![w] = "top"]
                     /\ UNCHANGED <<q, wtask, est>>
                ELSE LET t == IF PopBack THEN q[Len(q)] ELSE Head(q) IN
                     /\ q' = IF PopBack THEN SubSeq(q, 1, Len(q) - 1) ELSE Tail(q)
                     /\ wtask' = [wtask EXCEPT ![w] = t]
                     /\ est' = [est EXCEPT ![t] = "picked"]
                     /\ wpc' = [wpc EXCEPT ![w] = "start"]
             /\ UNCHANGED <<cpc, tmp, tid, next, nactive, running, dpc, wait>>
W_start(w) == /\ wpc[w] = "start"
              /\ est' = [est EXCEPT ![wtask[w]] = "running"]
              /\ wpc' = [wpc EXCEPT ![w] = "run"]
              /\ UNCHANGED <<cpc, tmp, tid, next, nactive, lock, q, running, wtask, dpc, wait>>
W_end(w) == /\ wpc[w] = "run"
            /\ est' = [est EXCEPT ![wtask[w]] = "ended"]
            /\ wpc' = [wpc EXCEPT ![w] = "finish"]
            /\ UNCHANGED <<cpc, tmp, tid, next, nactive, lock, q, running, wtask, dpc, wait>>
W_finish(w) == /\ wpc[w] = "finish"
               /\ est' = [est EXCEPT ![wtask[w]] = "retired"]
               /\ nactive' = nactive - 1
               /\ wpc' = [wpc EXCEPT ![w] = "top"]
               /\ UNCHANGED <<cpc, tmp, tid, next, lock, q, running, wtask, dpc, wait>>
Worker(w) == W_top(w) \/ W_lock(w) \/ W_look(w) \/ W_start(w) \/ W_end(w) \/ W_finish(w)

(* the destructor; not while another client is using the pool *)
D_begin == /\ dpc = "idle"
           /\ \A t \in Tasks : cpc[t] \in {"new", "made", "done"}
           /\ dpc' = IF HoldLockToJoin THEN "lock" ELSE "stop"
           /\ UNCHANGED <<cpc, tmp, tid, next, nactive, lock, q, running, wpc, wtask, est, wait>>
D_lock == /\ dpc = "lock" /\ lock = "free"
          /\ lock' = "dtor" /\ dpc' = "stop"
          /\ UNCHANGED <<cpc, tmp, tid, next, nactive, q, running, wpc, wtask, est, wait>>
D_stop == /\ dpc = "stop"
          /\ running' = FALSE
          /\ dpc' = IF StopBeforeEnd THEN "discard" ELSE "join"
          /\ UNCHANGED <<cpc, tmp, tid, next, nactive, lock, q, wpc, wtask, est, wait>>
D_join == /\ dpc = "join"
          /\ \A w \in Workers : wpc[w] = "exit"
          /\ dpc' = "discard"
          /\ UNCHANGED <<cpc, tmp, tid, next, nactive, lock, q, running, wpc, wtask, est, wait>>
D_discard == /\ dpc = "discard"
             /\ IF q = << >> THEN dpc' = "dead" /\ UNCHANGED <<q, est, nactive>>
                ELSE /\ q' = Tail(q)
                     /\ est' = [est EXCEPT ![Head(q)] = "discarded"]
                     /\ nactive' = IF DiscardCounts THEN nactive - 1 ELSE nactive
                     /\ UNCHANGED dpc
             /\ UNCHANGED <<cpc, tmp, tid, next, lock, running, wpc, wtask, wait>>
Dtor == D_lock \/ D_stop \/ D_join \/ D_discard

(* somebody waits for the background work, after the last creation *)
V_begin == /\ wait = "idle"
           /\ \A t \in Tasks : cpc[t] = "done" \/ (dpc # "idle" /\ cpc[t] = "new")
           /\ wait' = "waiting"
           /\ UNCHANGED <<cpc, tmp, tid, next, nactive, lock, q, running, wpc, wtask, dpc, est>>
V_end == /\ wait = "waiting" /\ nactive = 0
         /\ wait' = "waited"
         /\ UNCHANGED <<cpc, tmp, tid, next, nactive, lock, q, running, wpc, wtask, dpc, est>>

Next == (\E t \in Tasks : Client(t)) \/ (\E w \in Workers : Worker(w)) \/ D_begin \/ Dtor \/ V_begin \/ V_end
Fair == /\ \A t \in Tasks : WF_vars(C_id(t) \/ C_inc(t) \/ C_count(t) \/ C_ret(t) \/ C_push(t) \/ C_return(t)) /\ SF_vars(C_lock(t))
        /\ \A w \in Workers : WF_vars(W_top(w) \/ W_look(w) \/ W_start(w) \/ W_end(w) \/ W_finish(w)) /\ SF_vars(W_lock(w))
        /\ WF_vars(D_stop \/ D_join \/ D_discard) /\ SF_vars(D_lock)
        /\ WF_vars(V_end)
Spec == Init /\ [][Next]_vars /\ Fair

--------------------------------------------------------------------------
(* refinement of the interface specification *)
Finished == {t \in Tasks : est[t] = "retired" \/ (est[t] = "discarded" /\ DiscardCounts)}
A == INSTANCE ThreadPool WITH
       Pools <- {1}, Callers <- {0},
       st <- [t \in Tasks |-> IF est[t] # "none" THEN est[t]
                              ELSE CASE cpc[t] = "new" -> "none"
                                     [] cpc[t] \in {"id", "inc", "count", "ret"} -> "making"
                                     [] cpc[t] = "made" -> "made"
                                     [] OTHER -> "submitting"],
       id <- tid,
       ids <- {tid[t] : t \in Tasks} \ {NoId},
       counted <- {t \in Tasks : cpc[t] \notin {"new", "id", "inc", "count"}} \ Finished,
       home <- [t \in Tasks |-> IF cpc[t] \in {"lock", "push", "pushed", "done"} THEN 1 ELSE 0],
       queue <- [p \in {1} |-> q],
       width <- [p \in {1} |-> Cardinality(Workers)],
       ps <- [p \in {1} |-> CASE dpc = "idle" -> "live" [] dpc = "dead" -> "dead" [] OTHER -> "stopping"],
       subm <- {t \in Tasks : cpc[t] \in {"lock", "push", "pushed"}},
       seen <- [c \in {0} |-> CASE wait = "idle" -> [k |-> "idle"] [] wait = "waiting" -> [k |-> "waiting", m |-> 0] [] OTHER -> [k |-> "waited"]],
       inst <- 0
AbstractNext == \/ A!Silent
                \/ \E t \in Tasks : A!Make0(t) \/ A!Submit0(t, 1) \/ A!Submit1(t) \/ A!Run(t) \/ A!End(t)
                \/ \E t \in Tasks, n \in 0..Cardinality(Tasks) : A!Make1(t, n)
                \/ A!Destroy0(1) \/ A!Destroy1(1) \/ A!Wait0(0, 0)
Refines == [][AbstractNext]_(A!vars)
ActiveExact == nactive = Cardinality({t \in Tasks : cpc[t] \notin {"new", "id", "inc", "count"}} \ Finished)
UniqueIds == A!UniqueIds
AtMostWidth == A!AtMostWidth
DeadIsDead == A!DeadIsDead
(* when a task starts, fewer than W tasks submitted before it still wait *)
DtorEnds == (dpc # "idle") ~> (dpc = "dead")
WaitEnds == (wait = "waiting") ~> (wait = "waited")
AllRun == \A t \in Tasks : (cpc[t] = "done") ~> (est[t] \in {"retired"} \/ dpc # "idle")
=============================================================================
