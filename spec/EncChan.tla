------------------------------- MODULE EncChan -------------------------------
(***************************************************************************)
(* EncryptedChannelV2 used on its own: two ends share a key; each write    *)
(* seals its messages under consecutive own nonces and hands them to the   *)
(* transport in one write; a read opens the next packet of the other end   *)
(* or raises BadPeer and changes nothing.  When the transport raises, the   *)
(* caller gets that exception; the counters of packets handed over stay     *)
(* used, a read can be tried again.                                         *)
(* TLC explores all histories of Steps steps and prints them for replay in *)
(* both APIs (harness/tasks_enc.py).                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Steps, MaxW, Batches, Tricks, Fails

VARIABLES wn, rn, sent, got, lost, hist
vars == <<wn, rn, sent, got, lost, hist>>
Ends == {"c", "s"}
Other(e) == IF e = "c" THEN "s" ELSE "c"

Init == /\ wn = [e \in Ends |-> IF e = "c" THEN 1 ELSE 2]
        /\ rn = [e \in Ends |-> IF e = "c" THEN 2 ELSE 1]
        /\ sent = [e \in Ends |-> <<>>] /\ got = [e \in Ends |-> 0] /\ lost = [e \in Ends |-> FALSE] /\ hist = <<>>

Ev(a, e, ds, last, x, ps, r) == hist' = Append(hist, [a |-> a, e |-> e, ds |-> ds, last |-> last, x |-> x, ps |-> ps, r |-> r])

\* payload <<class, serial>>
Write(e, b, last) ==
  LET ds == [j \in 1..Len(b) |-> <<b[j], Len(sent[e]) + j>>]
      ps == [j \in 1..Len(b) |-> [n |-> wn[e] + 2 * (j - 1), d |-> ds[j], last |-> last /\ j = Len(b)]]
  IN /\ sent' = [sent EXCEPT ![e] = @ \o ps]
     /\ wn' = [wn EXCEPT ![e] = @ + 2 * Len(b)]
     /\ Ev("wr", e, ds, last, "", ps, "ret")
     /\ UNCHANGED <<rn, got, lost>>

Nxt(e) == sent[Other(e)][got[e] + 1]
Read(e) ==
  /\ got[e] < Len(sent[Other(e)])
  /\ Nxt(e).n = rn[e]
  /\ rn' = [rn EXCEPT ![e] = @ + 2] /\ got' = [got EXCEPT ![e] = @ + 1]
  /\ Ev("rd", e, <<Nxt(e).d>>, Nxt(e).last, "", <<Nxt(e)>>, "data")
  /\ UNCHANGED <<wn, sent, lost>>

\* a packet that is not the next genuine one
Bad(e, x) ==
  /\ CASE x \in {"flip", "cut", "type", "grow", "flag"} -> got[e] < Len(sent[Other(e)])
       [] x = "dup" -> got[e] > 0
       [] x = "skip" -> got[e] + 1 < Len(sent[Other(e)])
       [] x = "own" -> sent[e] # <<>>
       [] OTHER -> TRUE
  /\ Ev("bad", e, <<>>, FALSE, x, CASE x \in {"flip", "cut", "type", "grow", "flag"} -> <<Nxt(e)>> [] x = "dup" -> <<sent[Other(e)][got[e]]>>
                          [] x = "skip" -> <<sent[Other(e)][got[e] + 2]>> [] x = "own" -> <<sent[e][1]>> [] OTHER -> <<>>, "BadPeer")
  /\ UNCHANGED <<wn, rn, sent, got, lost>>

\* the transport raises (a communication error, another error, or the cancellation of what it waited for):
\* a write whose packets were handed over, lost with it; a read that got nothing
FailW(e, b, f) ==
  LET ds == [j \in 1..Len(b) |-> <<b[j], Len(sent[e]) + j>>]
      ps == [j \in 1..Len(b) |-> [n |-> wn[e] + 2 * (j - 1), d |-> ds[j], last |-> FALSE]]
  IN /\ wn' = [wn EXCEPT ![e] = @ + 2 * Len(b)]
     /\ lost' = [lost EXCEPT ![e] = TRUE]
     /\ Ev("fw", e, ds, FALSE, f, ps, "raise")
     /\ UNCHANGED <<rn, got, sent>>
FailR(e, f) == /\ Ev("fr", e, <<>>, FALSE, f, <<>>, "raise") /\ UNCHANGED <<wn, rn, sent, got, lost>>

Writes(e) == Cardinality({k \in 1..Len(hist) : hist[k].a \in {"wr", "fw"} /\ hist[k].e = e})
Next == /\ Len(hist) < Steps
        /\ \E e \in Ends :
             \/ Read(e)
             \/ \E x \in Tricks : Bad(e, x)
             \/ /\ Writes(e) < MaxW /\ \E b \in Batches, l \in BOOLEAN : Write(e, b, l)
             \/ /\ Writes(e) < MaxW /\ \E b \in Batches, f \in Fails : FailW(e, b, f)
             \/ \E f \in Fails : FailR(e, f)
Spec == Init /\ [][Next]_vars

\* nonces are never reused, are of the sender's parity, and the reader follows the writer (C04, C05)
NoReuse == \A e \in Ends : \A j, k \in 1..Len(sent[e]) : sent[e][j].n = sent[e][k].n => j = k
Parity == \A e \in Ends : \A j \in 1..Len(sent[e]) :
            IF lost[e] THEN sent[e][j].n % 2 = (IF e = "c" THEN 1 ELSE 0) /\ sent[e][j].n < wn[e]
            ELSE sent[e][j].n = (IF e = "c" THEN 2 * j - 1 ELSE 2 * j)
Follows == \A e \in Ends : rn[e] = (IF e = "c" THEN 2 + 2 * got[e] ELSE 1 + 2 * got[e])
Inv == NoReuse /\ Parity /\ Follows
Gen == IF Len(hist) = Steps THEN PrintT("OUT " \o ToJson([h |-> hist])) ELSE TRUE

B1 == { <<"a">>, <<"e">>, <<"a", "a", "L", "a">> }
F1 == {"com", "os", "value", "cancel"}
F2 == {"com", "cancel"}
F0 == {}
B2 == { <<"a">>, <<"a", "e">> }
T0 == {"flip"}
T1 == {"flip", "dup", "skip", "own", "short"}
T2 == {"flip", "dup", "skip", "own", "short", "cut", "type", "grow", "empty"}
=============================================================================
