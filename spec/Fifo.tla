-------------------------------- MODULE Fifo --------------------------------
(***************************************************************************)
(* A message channel between two ends "c" and "s": what one end writes the *)
(* other reads, once, whole and in order.  Histories recorded from real    *)
(* sockets, asyncio streams, in-process tunnels and monitored channels     *)
(* (harness/tasks_fifo.py) have to be behaviours of this module.           *)
(*   wr   end e starts a write of the messages ids (one call)              *)
(*   wre  that write ended, r = "ok" or an exception                       *)
(*   rd   a read at e ended: r = "msg" with message id, or an exception    *)
(*   cls  end e closed; part: bytes of an unfinished message were sent     *)
(* Message id: <<size, serial>>; unknown bytes have serial -1.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS TraceFile
Traces == JsonDeserialize(TraceFile)

VARIABLES tr, i, q, open
vars == <<tr, i, q, open>>
Other(e) == IF e = "c" THEN "s" ELSE "c"
Fam == {"Com", "BadPeer", "NoSuch", "Time"}

Init == /\ tr \in 1..Len(Traces) /\ i = 0
        /\ q = [e \in {"c", "s"} |-> <<>>] /\ open = {"c", "s"}

Wr(v) == /\ v.k = "wr" /\ v.e \in open
         /\ q' = [q EXCEPT ![Other(v.e)] = @ \o v.ids] /\ UNCHANGED open
\* a write may only fail once the other end has gone
WrEnd(v) == /\ v.k = "wre" /\ (v.r = "ok" \/ (Other(v.e) \notin open /\ v.r \in Fam)) /\ UNCHANGED <<q, open>>
Rd(v) == /\ v.k = "rd"
         /\ IF v.r = "msg" THEN /\ q[v.e] # <<>> /\ v.id = Head(q[v.e]) /\ q' = [q EXCEPT ![v.e] = Tail(@)]
            ELSE /\ q[v.e] = <<>> /\ Other(v.e) \notin open /\ v.r \in Fam /\ UNCHANGED q
         /\ UNCHANGED open
Cls(v) == v.k = "cls" /\ v.e \in open /\ open' = open \ {v.e} /\ UNCHANGED q

Next == /\ i < Len(Traces[tr].ev) /\ i' = i + 1 /\ tr' = tr
        /\ \E v \in {Traces[tr].ev[i + 1]} : Wr(v) \/ WrEnd(v) \/ Rd(v) \/ Cls(v)
Spec == Init /\ [][Next]_vars

ASSUME \A t \in 1..Len(Traces) : TLCSet(100 + t, 0)
Progress == IF TLCGet(100 + tr) < i THEN TLCSet(100 + tr, i) ELSE TRUE
Report == \A t \in 1..Len(Traces) : PrintT("OUT " \o ToString(t) \o " " \o ToString(TLCGet(100 + t)) \o " " \o ToString(Len(Traces[t].ev)))
=============================================================================
