------------------------------- MODULE Framing -------------------------------
(***************************************************************************)
(* Message framing over a byte stream (SocketChannel, AsyncioChannel).     *)
(* A message travels as its length (4 bytes, little endian, signed)        *)
(* followed by its bytes.  The stream reaches the reader in arbitrary      *)
(* segments and may end or fail between any two bytes.                     *)
(*                                                                         *)
(* TLC enumerates the streams, all their segmentations (up to MaxCut cuts) *)
(* and every point at which the stream may end or fail, checks ReadExactly *)
(* on every state and prints each complete behaviour; the harness plays it *)
(* to the real channels (harness/tasks_stream.py).                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Streams,     \* the set of cases: [ws |-> write calls, raw |-> extra bytes a peer appends]
          MaxCut,      \* how many segment boundaries at most
          Ends         \* how the stream stops: subset of {"eof", "err"}

VARIABLES case, arr, pos, cuts, out, end, hist
vars == <<case, arr, pos, cuts, out, end, hist>>

LE4(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216 >>
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Frame(m) == LE4(Len(m)) \o m
FrameAll(ms) == Cat([k \in 1..Len(ms) |-> Frame(ms[k])])
Written(c) == Cat(c.ws)                       \* all messages, in order
Stream(c) == FrameAll(Written(c)) \o c.raw

\* What one read does when `a` bytes of the stream have arrived and `p` were consumed by earlier reads;
\* e = "no" (more may come), "eof", "err".  Lengths are below 2^24 or have the sign bit set.
Announced(s, p) == IF s[p + 4] >= 128 THEN -1 ELSE s[p + 1] + 256 * s[p + 2] + 65536 * s[p + 3] + (IF s[p + 4] > 0 THEN 16777216 ELSE 0)
Read(s, a, p, e) ==
  IF a - p >= 4
  THEN LET n == Announced(s, p) IN
       IF n < 0 THEN [k |-> "Com", m |-> <<>>, p |-> p]
       ELSE IF a - p - 4 >= n THEN [k |-> "msg", m |-> SubSeq(s, p + 5, p + 4 + n), p |-> p + 4 + n]
       ELSE IF e # "no" THEN [k |-> "Com", m |-> <<>>, p |-> p] ELSE [k |-> "wait", m |-> <<>>, p |-> p]
  ELSE IF e # "no" THEN [k |-> "Com", m |-> <<>>, p |-> p] ELSE [k |-> "wait", m |-> <<>>, p |-> p]

Init == /\ case \in Streams
        /\ arr = 0 /\ pos = 0 /\ cuts = <<>> /\ out = <<>> /\ end = "no"
        /\ hist = <<>>

\* a read that can finish finishes before anything else happens (the reader always has a read outstanding)
Now == Read(Stream(case), arr, pos, end)
Finish == /\ Now.k # "wait" /\ (IF out = <<>> THEN TRUE ELSE out[Len(out)].k = "msg")
          /\ out' = Append(out, [k |-> Now.k, m |-> Now.m])
          /\ hist' = Append(hist, [a |-> "ret", n |-> 0, k |-> Now.k, m |-> Now.m])
          /\ pos' = Now.p
          /\ UNCHANGED <<case, arr, cuts, end>>
Idle == Now.k = "wait"
Arrive(n) == /\ Idle /\ end = "no" /\ arr + n <= Len(Stream(case))
             /\ (Len(cuts) < MaxCut \/ arr + n = Len(Stream(case)))
             /\ arr' = arr + n /\ cuts' = Append(cuts, n)
             /\ hist' = Append(hist, [a |-> "seg", n |-> n, k |-> "", m |-> <<>>])
             /\ UNCHANGED <<case, pos, out, end>>
Stop(e) == /\ Idle /\ end = "no" /\ end' = e
           /\ hist' = Append(hist, [a |-> e, n |-> 0, k |-> "", m |-> <<>>])
           /\ UNCHANGED <<case, arr, pos, cuts, out>>
Next == Finish \/ (\E n \in 1..Len(Stream(case)) : Arrive(n)) \/ (\E e \in Ends : Stop(e))
Spec == Init /\ [][Next]_vars

\* C15: what has been read is a prefix of what was written (as long as the peer wrote frames), then at most one failure
Msgs(o) == [k \in 1..Cardinality({j \in 1..Len(o) : o[j].k = "msg"}) |-> o[k].m]
ReadExactly ==
  /\ \A k \in 1..Len(out) : out[k].k = "msg" => (\A j \in 1..k : out[j].k = "msg")
  /\ LET w == Written(case) IN \A k \in 1..Len(out) : (out[k].k = "msg" /\ k <= Len(w)) => out[k].m = w[k]
  /\ (case.raw = <<>> => Len(Msgs(out)) <= Len(Written(case)))
  /\ (case.raw = <<>> /\ end = "no" => \A k \in 1..Len(out) : out[k].k = "msg")
  \* nothing is withheld: all that arrived whole has been returned when the reader waits
  /\ (case.raw = <<>> /\ Idle /\ arr = Len(Stream(case)) => Msgs(out) = Written(case))

Complete == out # <<>> /\ out[Len(out)].k = "Com"
Gen == IF Complete THEN PrintT("OUT " \o ToJson([ws |-> case.ws, raw |-> case.raw, s |-> Stream(case), h |-> hist])) ELSE TRUE

\* ------------------------------------------------------------------ cases
B(n) == [k \in 1..n |-> (n * 16 + k) % 256]      \* a message of n bytes
W(sizes) == << [k \in 1..Len(sizes) |-> B(sizes[k])] >>      \* one write call
W2(a, b) == W(a) \o W(b)
C(ws, raw) == [ws |-> ws, raw |-> raw]
Short == { C(W(<<0>>), <<>>), C(W(<<1>>), <<>>), C(W(<<2>>), <<>>), C(W(<<3>>), <<>>), C(W(<<5>>), <<>>), C(W(<<0, 0>>), <<>>), C(W(<<1, 0>>), <<>>),
           C(W(<<0, 1>>), <<>>), C(W2(<<0>>, <<1>>), <<>>),
           C(<<>>, <<255, 255, 255, 255>>), C(<<>>, <<0, 0, 0, 128>>), C(<<>>, <<1, 0, 0, 128, 7>>), C(<<>>, <<254, 255, 255, 255, 7, 8>>),
           C(<<>>, <<3, 0, 0, 0, 9, 9>>), C(<<>>, <<0, 1, 0, 0, 9, 9>>), C(<<>>, <<0, 0, 1, 0, 9, 9>>), C(<<>>, <<5, 0>>),
           C(<<>>, <<255, 255, 255, 255, 0, 0, 0, 0>>) }
Long == { C(W(<<4, 4>>), <<>>), C(W(<<1, 2, 3>>), <<>>), C(W2(<<2, 0>>, <<3>>), <<>>), C(W(<<12>>), <<>>), C(W(<<0, 0, 0, 0>>), <<>>),
          C(W2(<<4>>, <<4, 1>>), <<>>), C(W(<<2>>), <<255, 255, 255, 255, 1, 0, 0, 0, 5>>), C(W(<<3>>), <<2, 0, 0, 0, 1>>), C(W(<<1, 1, 1, 1>>), <<>>),
          C(W(<<20>>), <<>>), C(W(<<8, 0, 5>>), <<>>) }
Big == { C(W(<<16, 3>>), <<>>), C(W(<<5, 5, 5>>), <<>>), C(W2(<<0, 7>>, <<1, 0>>), <<>>), C(W(<<30>>), <<>>) }
ASSUME \A c \in Short \cup Long : c.raw = <<>> => Len(Stream(c)) = 4 * Len(Written(c)) + Len(Cat(Written(c)))
=============================================================================
