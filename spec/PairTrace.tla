------------------------------ MODULE PairTrace ------------------------------
(***************************************************************************)
(* Histories recorded from the real pairs (harness/tasks_pair.py) are      *)
(* behaviours of Pair.  Server sessions are known by the order in which    *)
(* they started; `who` says whose connection each of them turned out to    *)
(* serve, by the first message it received.                                *)
(*   cbeg c | csend c | cgot c n | cend c how                              *)
(*   sbeg s | srv s c n | send s | ret how | stop                          *)
(* Messages the client was never sent show as n = 0.                       *)
(***************************************************************************)
EXTENDS Pair
CONSTANTS TraceFile
Traces == JsonDeserialize(TraceFile)
VARIABLES tr, i, who, open
tvars == <<vars, tr, i, who, open>>

TInit == /\ tr \in 1..Len(Traces) /\ i = 0 /\ who = <<>> /\ open = {}
         /\ Start(Traces[tr].kind, Traces[tr].grp)
Keep == UNCHANGED <<who, open>>

\* the order in which the clients' last bytes and the connection's end are seen is the network's: a server session of a
\* client that said nothing stays anonymous
Ev(v) ==
  \/ v.k = "cbeg" /\ v.c \in C /\ Begin(v.c) /\ Keep
  \/ v.k = "csend" /\ Send(v.c) /\ Keep
  \/ v.k = "cgot" /\ dn[v.c] # <<>> /\ Head(dn[v.c]) = v.n /\ Got(v.c) /\ Keep
  \/ v.k = "cend" /\ Leave(v.c, v.r) /\ Keep
  \/ v.k = "sbeg" /\ v.s \notin open /\ (IF kind = "mp" THEN open = {} ELSE TRUE) /\ Cardinality(open) + Len(who) < 2 * Len(grp) + 1
       /\ open' = open \cup {v.s} /\ UNCHANGED <<vars, who>>
  \* first message of this server session: it belongs to that client, and to no other, from now on
  \/ v.k = "srv" /\ v.s \in open /\ v.c \in C
       /\ IF sv[v.c] = "none"
          THEN /\ \A k \in 1..Len(who) : who[k][1] # v.s
               /\ up[v.c] # <<>> /\ Head(up[v.c]) = v.n /\ v.n = 1
               /\ who' = Append(who, <<v.s, v.c>>)
               /\ sv' = [sv EXCEPT ![v.c] = "run"]
               /\ IF Kills(v.c, v.n) THEN UNCHANGED <<up, dn>>
                  ELSE up' = [up EXCEPT ![v.c] = Tail(@)] /\ dn' = [dn EXCEPT ![v.c] = Append(@, v.n)]
               /\ UNCHANGED <<kind, grp, cl, pos, snt, got, ret, open>>
          ELSE /\ \E k \in 1..Len(who) : who[k] = <<v.s, v.c>>
               /\ up[v.c] # <<>> /\ Head(up[v.c]) = v.n
               /\ IF Kills(v.c, v.n) THEN UNCHANGED vars ELSE Echo(v.c)
               /\ Keep
  \/ v.k = "send" /\ v.s \in open /\ open' = open \ {v.s} /\ UNCHANGED who
       /\ IF \E k \in 1..Len(who) : who[k][1] = v.s
          THEN \E k \in 1..Len(who) : who[k][1] = v.s /\ SvEnd(who[k][2])
          ELSE UNCHANGED vars       \* a connection on which nothing was said
  \/ v.k = "ret" /\ Return(v.r) /\ Keep
  \/ v.k = "stop" /\ v.r = "ok" /\ ret # "no" /\ UNCHANGED vars /\ Keep
     \* nobody waits for a server session: at the end they have all ended
     /\ open = {}
     /\ \A c \in C : sv[c] = "end" \/ (sv[c] = "none" /\ (snt[c] = 0 \/ (Op(c) = "q" /\ snt[c] = 1)))

TNext == /\ i < Len(Traces[tr].ev) /\ i' = i + 1 /\ tr' = tr
         /\ \E v \in {Traces[tr].ev[i + 1]} : Ev(v)
TSpec == TInit /\ [][TNext]_tvars
ASSUME \A t \in 1..Len(Traces) : TLCSet(100 + t, 0)
Progress == IF TLCGet(100 + tr) < i THEN TLCSet(100 + tr, i) ELSE TRUE
Report == \A t \in 1..Len(Traces) : PrintT("OUT " \o ToString(t) \o " " \o ToString(TLCGet(100 + t)) \o " " \o ToString(Len(Traces[t].ev)))
NoKinds == {}
NoGroups == {}
=============================================================================
