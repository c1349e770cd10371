------------------------------ MODULE Monitor -------------------------------
(***************************************************************************)
(* The man-in-the-middle monitor (saltchannel/dev/mitm_channel.py): a      *)
(* channel around a channel.  Messages are numbered tokens.  A step is a   *)
(* write of n messages (one call) which the channel below takes or fails,  *)
(* a read which the channel below answers or fails, a write that happens   *)
(* while a read is waiting, switching log buffering, a flush, or close.    *)
(* Each step says what the user and the channel below must see (res, below)*)
(* and what it adds to counters and log: rd / wr are the tokens counted,   *)
(* log the entries the log receives, in order.                             *)
(* Explored completely for few Steps, and by simulation for many.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Steps, MaxBatch, HasLog

VARIABLES n, rd, wr, log, queue, buf, hist
vars == <<n, rd, wr, log, queue, buf, hist>>

Tok(k) == [j \in 1..k |-> n + j]
Init == n = 0 /\ rd = <<>> /\ wr = <<>> /\ log = <<>> /\ queue = <<>> /\ buf = FALSE /\ hist = <<>>

\* entries of one call: into the log at once, or into the queue
Enter(es) == IF ~HasLog THEN UNCHANGED <<log, queue>>
             ELSE IF buf THEN queue' = queue \o es /\ UNCHANGED log
             ELSE log' = log \o es /\ UNCHANGED queue
WEntries(ts) == [j \in 1..Len(ts) |-> [kind |-> IF j = 1 THEN "WRITE" ELSE "WRITE_WITH_PREVIOUS", tok |-> ts[j]]]
REntries(ts) == [j \in 1..Len(ts) |-> [kind |-> "READ", tok |-> ts[j]]]

New(q, r) == SubSeq(r, Len(q) + 1, Len(r))
Do(step) == hist' = Append(hist, step @@ [rd |-> New(rd, rd'), wr |-> New(wr, wr'), log |-> New(log, log')])

Write == \E k \in 1..MaxBatch, last \in BOOLEAN, ok \in BOOLEAN :
    /\ n' = n + k
    /\ IF ok THEN wr' = wr \o Tok(k) /\ Enter(WEntries(Tok(k))) ELSE UNCHANGED <<wr, log, queue>>
    /\ UNCHANGED <<rd, buf>>
    /\ Do([op |-> "write", toks |-> Tok(k), last |-> last, ok |-> ok])
Read == \E ok \in BOOLEAN :
    /\ n' = n + 1
    /\ IF ok THEN rd' = rd \o Tok(1) /\ Enter(REntries(Tok(1))) ELSE UNCHANGED <<rd, log, queue>>
    /\ UNCHANGED <<wr, buf>>
    /\ Do([op |-> "read", toks |-> Tok(1), last |-> FALSE, ok |-> ok])
\* a read waits, a write goes through, then the read gets its message
Around == \E last \in BOOLEAN :
    /\ n' = n + 2
    /\ wr' = Append(wr, n + 1) /\ rd' = Append(rd, n + 2)
    /\ Enter(WEntries(<<n + 1>>) \o REntries(<<n + 2>>))
    /\ UNCHANGED buf
    /\ Do([op |-> "around", toks |-> Tok(2), last |-> last, ok |-> TRUE])
Toggle == /\ buf' = ~buf /\ UNCHANGED <<n, rd, wr, log, queue>>
          /\ Do([op |-> "toggle", toks |-> <<>>, last |-> buf', ok |-> TRUE])
Flush == /\ log' = log \o queue /\ queue' = <<>> /\ UNCHANGED <<n, rd, wr, buf>>
         /\ Do([op |-> "flush", toks |-> <<>>, last |-> FALSE, ok |-> TRUE])

Next == Len(hist) < Steps /\ (Write \/ Read \/ Around \/ Toggle \/ Flush)
Spec == Init /\ [][Next]_vars

Toks(es) == {es[j].tok : j \in 1..Len(es)}
Counted == {rd[j] : j \in 1..Len(rd)} \cup {wr[j] : j \in 1..Len(wr)}
\* every message counted has exactly one entry, logged or waiting, and nothing else has
OneEntryEach == HasLog => /\ Toks(log) \cup Toks(queue) = Counted
                          /\ Len(log) + Len(queue) = Cardinality(Counted)
NoLogNoEntries == ~HasLog => log = <<>> /\ queue = <<>>
\* the log only grows, and its order within one direction is the order of the messages unless buffering was switched
LogGrows == [][Len(log') >= Len(log) /\ SubSeq(log', 1, Len(log)) = log]_vars
Gen == Len(hist) = Steps => PrintT("OUT " \o ToJson([haslog |-> HasLog, steps |-> hist]))
=============================================================================
