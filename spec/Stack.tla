------------------------------- MODULE Stack --------------------------------
(***************************************************************************)
(* A whole salt channel, seen by its two users: sessions over a real       *)
(* transport (asyncio streams, sockets, tunnels, with or without monitors) *)
(* through either API, several tasks of each end writing at the same time. *)
(* One call's messages arrive together and in order; calls arrive in an    *)
(* order that respects which of them had ended before the other began.     *)
(* Histories recorded by harness/tasks_stack.py have to be behaviours of   *)
(* this module.                                                            *)
(*   wr   end e starts write number id of the messages ids, last flag      *)
(*   wre  that write ended, r = "ok" or an exception                       *)
(*   rd   a read at e ended: r = "msg" with message id and the last        *)
(*        property after it, or an exception                               *)
(*   hs   the handshake at e ended                                         *)
(*   fin  both ends are done                                               *)
(* A message is <<size, serial>>; unknown bytes have serial -1.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS TraceFile
Traces == JsonDeserialize(TraceFile)

VARIABLES tr, i,
          pend,   \* per end: calls written to it of which nothing has been delivered: [id, ids, last, beg, end]
          cur     \* per end: what is left of the call being delivered: [ids, last, one, new]
vars == <<tr, i, pend, cur>>
Other(e) == IF e = "c" THEN "s" ELSE "c"
Never == 1000000000
Nothing == [ids |-> <<>>, last |-> FALSE, one |-> FALSE, new |-> FALSE]

Init == /\ tr \in 1..Len(Traces) /\ i = 0
        /\ pend = [e \in {"c", "s"} |-> {}] /\ cur = [e \in {"c", "s"} |-> Nothing]

\* two or more messages that all fit travel in one packet
One(ids) == Len(ids) >= 2 /\ Len(ids) <= 65535 /\ \A k \in 1..Len(ids) : ids[k][1] <= 65535

Wr(v) == /\ v.k = "wr"
         /\ pend' = [pend EXCEPT ![Other(v.e)] = @ \cup {[id |-> v.id, ids |-> v.ids, last |-> v.last, beg |-> i, end |-> Never]}]
         /\ UNCHANGED cur
WrEnd(v) == /\ v.k = "wre" /\ v.r = "ok"
            /\ pend' = [pend EXCEPT ![Other(v.e)] = {IF c.id = v.id THEN [c EXCEPT !.end = i] ELSE c : c \in @}]
            /\ UNCHANGED cur
\* the last property tells the flag of a packet after the read that consumed it (a queued message consumes none)
FlagOk(v, c) == IF c.one /\ ~c.new THEN TRUE ELSE v.last = (c.last /\ (c.one \/ Len(c.ids) = 1))
Deliver(v, c) == /\ v.id = Head(c.ids) /\ FlagOk(v, c)
                 /\ cur' = [cur EXCEPT ![v.e] = IF Len(c.ids) = 1 THEN Nothing ELSE [c EXCEPT !.ids = Tail(@), !.new = FALSE]]
Hs(v) == v.k = "hs" /\ v.r = "ok" /\ UNCHANGED <<pend, cur>>
Rd(v) == /\ v.k = "rd" /\ v.r = "msg"
         /\ IF cur[v.e].ids # <<>> THEN Deliver(v, cur[v.e]) /\ UNCHANGED pend
            ELSE \E c \in pend[v.e] :
                   /\ \A d \in pend[v.e] : d.end > c.beg          \* nothing that had ended before this call began is overtaken
                   /\ Deliver(v, [ids |-> c.ids, last |-> c.last, one |-> One(c.ids), new |-> TRUE])
                   /\ pend' = [pend EXCEPT ![v.e] = @ \ {c}]
Fin(v) == v.k = "fin" /\ (\A e \in {"c", "s"} : pend[e] = {} /\ cur[e] = Nothing) /\ UNCHANGED <<pend, cur>>

Next == /\ i < Len(Traces[tr].ev) /\ i' = i + 1 /\ tr' = tr
        /\ \E v \in {Traces[tr].ev[i + 1]} : Hs(v) \/ Wr(v) \/ WrEnd(v) \/ Rd(v) \/ Fin(v)
Spec == Init /\ [][Next]_vars

ASSUME \A t \in 1..Len(Traces) : TLCSet(100 + t, 0)
Progress == IF TLCGet(100 + tr) < i THEN TLCSet(100 + tr, i) ELSE TRUE
Report == \A t \in 1..Len(Traces) : PrintT("OUT " \o ToString(t) \o " " \o ToString(TLCGet(100 + t)) \o " " \o ToString(Len(Traces[t].ev)))
=============================================================================
