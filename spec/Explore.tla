------------------------------ MODULE Explore ------------------------------
(***************************************************************************)
(* Exhaustive exploration of a bounded model.  Every transition is checked *)
(* against the property and printed, to be replayed on the implementation. *)
(***************************************************************************)
EXTENDS Models, Json, IOUtils

Pid == IOEnv.PID
Thorough == IOEnv.TIER = "thorough"
Start == Docs(Pid, Thorough)
Plainly == SeqOf(Ops(Pid, Thorough))
OpSeq == Plainly \o SeqOf(FreeOps(Pid, Thorough))
Bound == Steps(Pid, Thorough)

VARIABLES cur, evt       \* evt: the last operation (its number), its outcome, and when
vars == <<cur, evt>>

RegSeq(reg) == LET ns == SortNames(DOMAIN reg) IN [i \in 1..Len(ns) |-> [name |-> ns[i], kind |-> reg[ns[i]]]]

Init == /\ cur \in {[d |-> x, reg |-> Registered(Pid)] : x \in Start}
        /\ evt = [n |-> 0, out |-> [k |-> "none"], at |-> 0]

(* What is left open is part of the model of arbitrary input only. *)
Anything == [k |-> "any"]
Choices == 1..Len(IF cur.d \in FreeDocs(Pid) THEN OpSeq ELSE Plainly)

Next == TLCGet("level") < Bound /\ Further(Pid, cur.d, Thorough, TLCGet("level")) /\ \E n \in Choices :
          /\ Apply(Pid, cur.d, OpSeq[n])
          /\ Pid = "P28" \/ ~Unspecified(cur, OpSeq[n])
          /\ LET out == IF Unspecified(cur, OpSeq[n]) THEN Anything ELSE Expected(cur, OpSeq[n])
             IN /\ cur' = IF out = Anything THEN cur ELSE Follow(cur, OpSeq[n], out)
                /\ evt' = [n |-> n, out |-> out, at |-> TLCGet("level")]
                /\ PrintT(ToJson([d |-> cur.d, reg |-> RegSeq(cur.reg), op |-> OpSeq[n], exp |-> out]))

Spec == Init /\ [][Next]_vars

(* states are identified by the document and the registry only *)
View == cur

PropertyHolds == [][evt'.out = Anything \/ Holds(Pid, cur, OpSeq[evt'.n], evt'.out)]_vars
TypeOK == cur.d = <<>> \/ \A i \in 1..Len(cur.d) : cur.d[i] \in 0..255
=============================================================================
