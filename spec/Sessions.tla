------------------------------ MODULE Sessions ------------------------------
(***************************************************************************)
(* Several sessions in one process.  The composition is the independent    *)
(* product: session k is a behaviour of SaltMC cut into Lens[k] blocks     *)
(* (block 1 includes its creation), and a step of one session leaves every *)
(* other one where it was (NonInterference, C17).  TLC enumerates all      *)
(* interleavings; the harness runs real sessions under each of them and    *)
(* compares every session with its own behaviour as if it were alone.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Lens
VARIABLES at, order
vars == <<at, order>>
N == Len(Lens)
Init == at = [k \in 1..N |-> 0] /\ order = <<>>
Step(k) == at[k] < Lens[k] /\ at' = [at EXCEPT ![k] = @ + 1] /\ order' = Append(order, k)
Next == \E k \in 1..N : Step(k)
Spec == Init /\ [][Next]_vars
NonInterference == [][ \E k \in 1..N : \A j \in 1..N : j # k => at'[j] = at[j] ]_vars
Complete == \A k \in 1..N : at[k] = Lens[k]
TypeOK == \A k \in 1..N : at[k] = Cardinality({j \in 1..Len(order) : order[j] = k})
Gen == IF Complete THEN PrintT("OUT " \o ToJson([o |-> order])) ELSE TRUE
L55 == <<5, 5>>
L66 == <<6, 6>>
L333 == <<3, 3, 3>>
L2222 == <<2, 2, 2, 2>>
L444 == <<4, 4, 4>>
=============================================================================
