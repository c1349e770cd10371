----------------------------- MODULE LibSelect ------------------------------
(***************************************************************************)
(* Which crypto back end the package uses (saltchannel/saltlib/saltlib.py).*)
(* avail is the set of back ends installed in a process.  In that process  *)
(* libraries are asked for (Get), one by one, then the library object is   *)
(* made (Make) or a session is run (Use).  Earlier requests never change   *)
(* what a later one gives.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxGet

Libs == {"native", "pynacl", "tweet"}
Preference == <<"native", "pynacl", "tweet">>
Asks == Libs \cup {"best"}

VARIABLES avail, hist, done
vars == <<avail, hist, done>>

Best == Preference[CHOOSE k \in 1..3 : Preference[k] \in avail /\ \A j \in 1..(k - 1) : Preference[j] \notin avail]
Answer(t) == IF t = "best" THEN (IF avail = {} THEN "NoSuchLib" ELSE Best)
             ELSE IF t \in avail THEN t ELSE "NoSuchLib"

Init == avail \in SUBSET Libs /\ hist = <<>> /\ done = FALSE
Get == /\ ~done /\ Len(hist) < MaxGet
       /\ \E t \in Asks : hist' = Append(hist, [op |-> "get", t |-> t, rng |-> 0, r |-> Answer(t)])
       /\ UNCHANGED <<avail, done>>
Make == /\ ~done /\ done' = TRUE
        /\ \E t \in Asks, g \in 0..1 : hist' = Append(hist, [op |-> "make", t |-> t, rng |-> g, r |-> Answer(t)])
        /\ UNCHANGED avail
Use == /\ ~done /\ done' = TRUE
       /\ hist' = Append(hist, [op |-> "session", t |-> "best", rng |-> 0, r |-> IF avail = {} THEN "NoSuchLib" ELSE "works"])
       /\ UNCHANGED avail
Next == Get \/ Make \/ Use
Spec == Init /\ [][Next]_vars

\* what any answer means to the caller
OnlyInstalled == \A k \in 1..Len(hist) : hist[k].r \in avail \cup {"NoSuchLib", "works"}
NeverInferior == \A k \in 1..Len(hist) : hist[k].t = "best" /\ hist[k].r \in Libs =>
                    \A j \in 1..3 : Preference[j] \in avail => \E i \in 1..j : Preference[i] = hist[k].r
Usable == \A k \in 1..Len(hist) : hist[k].t = "best" /\ avail # {} => hist[k].r # "NoSuchLib"
Gen == done => PrintT("OUT " \o ToJson([avail |-> avail, hist |-> hist]))
=============================================================================
