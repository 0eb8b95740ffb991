------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* Concurrent histories of the modifier registry.  A history is a set of   *)
(* calls with the times they began (inv) and ended (ret).  It is accepted  *)
(* when the calls can be executed one at a time, each between its inv and  *)
(* ret, such that the specification gives every call the outcome it had.   *)
(* The histories that can be completed are printed.                        *)
(***************************************************************************)
EXTENDS Api, Json, IOUtils

Rounds == ndJsonDeserialize(IOEnv.TRACE)
Doc0 == B("<r><i>b</i></r>")

VARIABLES rn, todo, cur       \* the round, the calls not yet executed, the state
vars == <<rn, todo, cur>>

Calls(i) == Rounds[i].ev

Init == /\ rn \in 1..Len(Rounds)
        /\ todo = 1..Len(Calls(rn))
        /\ cur = [d |-> Doc0, reg |-> NoReg]

(* a call may come next unless another one ended before it began *)
First(e) == \A f \in todo : Calls(rn)[f].ret >= Calls(rn)[e].inv

Next == \E e \in todo :
          /\ First(e)
          /\ LET c == Calls(rn)[e]
             IN /\ Expected(cur, c.op) = c.out
                /\ cur' = Follow(cur, c.op, c.out)
                /\ todo' = todo \ {e}
                /\ (todo' = {} => PrintT(ToJson([done |-> Rounds[rn].id])))
          /\ rn' = rn

(* nothing built in is ever replaced or removed *)
BuiltinsStay == DOMAIN cur.reg \cap Builtins = {}
=============================================================================
