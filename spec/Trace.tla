------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validation of histories recorded from the implementation.  Every event  *)
(* [op, out] of every history is compared with the outcome the             *)
(* specification gives in the state reached so far, and the property under *)
(* examination is evaluated on the observed outcome itself.                *)
(* One history per initial state; a disagreement is printed as JSON.       *)
(***************************************************************************)
EXTENDS Props, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
Pid == IOEnv.PID

(* No bound variable of the specification may have one of these names: TLC
   would stop caching constant expressions.                                *)
VARIABLES hn, pos, cur
vars == <<hn, pos, cur>>

Report(kind, exp) == PrintT(ToJson([mismatch |-> kind, h |-> Hist[hn].id, i |-> pos, exp |-> exp]))

Init == /\ hn \in 1..Len(Hist)
        /\ pos = 1
        /\ cur = [d |-> Hist[hn].d, reg |-> NoReg]

Stop == pos' = Len(Hist[hn].ev) + 1 /\ cur' = cur

Next == /\ pos <= Len(Hist[hn].ev)
        /\ LET e == Hist[hn].ev[pos]
               exp == Expected(cur, e.op)
           IN IF Unspecified(cur, e.op)
              THEN IF e.out.k = "panic" \/ ~Answer(cur, e.op, e.out)
                   THEN Report("answer", [k |-> "any"]) /\ Stop
                   ELSE cur' = Follow(cur, e.op, e.out) /\ pos' = pos + 1
              ELSE IF exp # e.out THEN Report("outcome", exp) /\ Stop
              ELSE IF ~Holds(Pid, cur, e.op, e.out) THEN Report("property", exp) /\ Stop
              ELSE cur' = Follow(cur, e.op, exp) /\ pos' = pos + 1
        /\ hn' = hn
=============================================================================
