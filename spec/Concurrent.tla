----------------------------- MODULE Concurrent -----------------------------
(***************************************************************************)
(* Concurrent queries step by step.  A query looks its path up in the      *)
(* shared memory of parsed paths, parses and stores it if it is not there  *)
(* (emptying the memory when it is full), looks up the modifier it names   *)
(* in the shared registry and answers.  Lookups and stores are atomic;     *)
(* everything else may interleave.  Checked: whatever the interleaving, a  *)
(* query gives the answer it gives alone in some registry state it         *)
(* overlapped with, and no entry of the memory is ever wrong.              *)
(* The parts are opaque here; recorded concurrent runs are judged by Trace *)
(* and Registry, which know what the answers are.                          *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Queriers, Paths, Capacity

Parsed(p) == [path |-> p]                       \* what parsing gives, always the same
Value(s, m) == [segs |-> s, mod |-> m]          \* what the query answers

VARIABLES cache, reg, pc, job, segs, seen, answer
vars == <<cache, reg, pc, job, segs, seen, answer>>

None == [path |-> 0]
TypeOK == /\ DOMAIN cache \subseteq Paths /\ Cardinality(DOMAIN cache) <= Capacity
          /\ \A p \in DOMAIN cache : cache[p] = Parsed(p)

Init == /\ cache = [p \in {} |-> None]
        /\ reg = FALSE                          \* whether the modifier is registered
        /\ pc = [q \in Queriers |-> "idle"]
        /\ job = [q \in Queriers |-> 0]
        /\ segs = [q \in Queriers |-> None]
        /\ seen = [q \in Queriers |-> {}]       \* registry states the query overlapped with
        /\ answer = [q \in Queriers |-> None]

Start(q) == /\ pc[q] = "idle"
            /\ \E p \in Paths : job' = [job EXCEPT ![q] = p]
            /\ pc' = [pc EXCEPT ![q] = "look"]
            /\ seen' = [seen EXCEPT ![q] = {reg}]
            /\ UNCHANGED <<cache, reg, segs, answer>>
Look(q) == /\ pc[q] = "look"
           /\ IF job[q] \in DOMAIN cache
              THEN segs' = [segs EXCEPT ![q] = cache[job[q]]] /\ pc' = [pc EXCEPT ![q] = "modify"]
              ELSE segs' = [segs EXCEPT ![q] = Parsed(job[q])] /\ pc' = [pc EXCEPT ![q] = "store"]
           /\ UNCHANGED <<cache, reg, job, seen, answer>>
Store(q) == /\ pc[q] = "store"
            /\ cache' = IF Cardinality(DOMAIN cache) >= Capacity
                        THEN (job[q] :> segs[q])
                        ELSE (job[q] :> segs[q]) @@ cache
            /\ pc' = [pc EXCEPT ![q] = "modify"]
            /\ UNCHANGED <<reg, job, segs, seen, answer>>
Modify(q) == /\ pc[q] = "modify"
             /\ answer' = [answer EXCEPT ![q] = Value(segs[q], reg)]
             /\ pc' = [pc EXCEPT ![q] = "done"]
             /\ UNCHANGED <<cache, reg, job, segs, seen>>
Finish(q) == /\ pc[q] = "done"
             /\ pc' = [pc EXCEPT ![q] = "idle"]
             /\ job' = [job EXCEPT ![q] = 0]
             /\ segs' = [segs EXCEPT ![q] = None]
             /\ seen' = [seen EXCEPT ![q] = {}]
             /\ answer' = [answer EXCEPT ![q] = None]
             /\ UNCHANGED <<cache, reg>>
Write == /\ reg' = ~reg
         /\ seen' = [q \in Queriers |-> IF pc[q] = "idle" THEN {} ELSE seen[q] \cup {~reg}]
         /\ UNCHANGED <<cache, pc, job, segs, answer>>

Next == Write \/ \E q \in Queriers : Start(q) \/ Look(q) \/ Store(q) \/ Modify(q) \/ Finish(q)
Spec == Init /\ [][Next]_vars

Answers == \A q \in Queriers : pc[q] = "done" =>
             \E m \in seen[q] : answer[q] = Value(Parsed(job[q]), m)
=============================================================================
