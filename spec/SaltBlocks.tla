----------------------------- MODULE SaltBlocks -----------------------------
(***************************************************************************)
(* Run-length refinement of the data plane of SaltV2 for very large writes *)
(* (tens of thousands of messages per call).  A block <<class, serial, k>> *)
(* stands for k messages of one class with consecutive serials, a packet   *)
(* group for cnt packets with consecutive counters.  The ASSUME at the end *)
(* checks that BWrite is DoWriteAt of SaltV2 on all small cases.            *)
(* Histories recorded from the code (harness/tasks_blocks.py) have to be   *)
(* behaviours of Spec.                                                      *)
(***************************************************************************)
EXTENDS SaltV2, Json

CONSTANTS TraceFile
Traces == JsonDeserialize(TraceFile)

RECURSIVE Total(_)
Total(ds) == IF ds = <<>> THEN 0 ELSE ds[1][3] + Total(Tail(ds))
BMulti(ds) == Total(ds) > 1 /\ Total(ds) <= 65535 /\ \A i \in 1..Len(ds) : ds[i][1] # "L"

Grp(n, cnt, l, t, tm, ds) == [n |-> n, cnt |-> cnt, last |-> l, t |-> t, time |-> tm, ds |-> ds]

\* the packet groups of one write call
BWrite(s, ds, last, tm) ==
  LET w0 == IF s.bm4 THEN s.wn + 2 ELSE s.wn
      g4 == IF s.bm4 THEN << Grp(s.wn, 1, FALSE, "M4", tm, <<>>) >> ELSE <<>>
      gs == IF BMulti(ds) THEN << Grp(w0, 1, last, "MUL", tm, ds) >>
            ELSE [i \in 1..Len(ds) |-> Grp(w0 + 2 * Total(SubSeq(ds, 1, i - 1)), ds[i][3], last /\ i = Len(ds), "APP", tm, <<ds[i]>>)]
  IN  g4 \o gs
BNext(s, ds) == [s EXCEPT !.wn = @ + 2 * ((IF s.bm4 THEN 1 ELSE 0) + (IF BMulti(ds) THEN 1 ELSE Total(ds))), !.bm4 = FALSE]

VARIABLES tr, i, S
vars == <<tr, i, S>>
Ev(k) == Traces[tr].ev[k]

Init == /\ tr \in 1..Len(Traces) /\ i = 0
        /\ S = [e \in {"c", "s"} |-> IF e = "c" THEN Traces[tr].c ELSE Traces[tr].s]

\* a write: call and what it handed over, and that it returned
Wr(v) ==
  /\ v.k = "wr" /\ v.r = "ret"
  /\ v.tx = << [g |-> BWrite(S[v.e], v.ds, v.last, v.now), last |-> v.last] >>
  /\ S' = [S EXCEPT ![v.e] = BNext(S[v.e], v.ds)]

\* a whole group was delivered and every message of it read: exactly those messages, flags as marked
Rd(v) ==
  /\ v.k = "rd"
  /\ LET g == Ev(v.ev).tx[1].g[v.j] IN
     /\ S[v.e].rn = g.n
     /\ v.ds = g.ds /\ v.last = g.last /\ ~v.midlast
     /\ S' = [S EXCEPT ![v.e].rn = g.n + 2 * g.cnt]

Next == /\ i < Len(Traces[tr].ev) /\ i' = i + 1 /\ tr' = tr
        /\ \E v \in {Ev(i + 1)} : Wr(v) \/ Rd(v)
Spec == Init /\ [][Next]_vars

ASSUME \A t \in 1..Len(Traces) : TLCSet(100 + t, 0)
Progress == IF TLCGet(100 + tr) < i THEN TLCSet(100 + tr, i) ELSE TRUE
Report == \A t \in 1..Len(Traces) : PrintT("OUT " \o ToString(t) \o " " \o ToString(TLCGet(100 + t)) \o " " \o ToString(Len(Traces[t].ev)))

\* ---- refinement check against SaltV2 on small writes
RECURSIVE ExpM(_)
ExpM(ds) == IF ds = <<>> THEN <<>> ELSE [k \in 1..ds[1][3] |-> <<ds[1][1], ds[1][2] + k - 1>>] \o ExpM(Tail(ds))
RECURSIVE ExpG(_)
ExpG(gs) == IF gs = <<>> THEN <<>>
  ELSE LET g == gs[1] m == ExpM(g.ds) IN
       [k \in 1..g.cnt |-> E(g.last /\ k = g.cnt, <<"cE", "sE">>, g.n + 2 * (k - 1),
          IF g.t = "M4" THEN M4(g.time, "cS", NIL) ELSE IF g.t = "MUL" THEN Mul(g.time, m) ELSE App(g.time, m[k]))] \o ExpG(Tail(gs))
Small == LET B == {"e", "a", "L"} \X {1} \X (1..3) IN {<<a>> : a \in B} \cup {<<a, b>> : a \in B, b \in B}
Strip(ps) == [k \in 1..Len(ps) |-> IF ps[k].body.t = "M4" THEN [ps[k] EXCEPT !.body.sig = NIL] ELSE ps[k]]
ASSUME \A ds \in Small, l \in BOOLEAN, b \in BOOLEAN :
  LET s == [Endpoint("c", "cE") EXCEPT !.dh = <<"cE", "sE">>, !.wn = 5, !.bm4 = b]
      o == DoWriteAt([ident |-> "cS"], s, ExpM(ds), l, "", 7)
  IN  Strip(o.w[1].ms) = ExpG(BWrite(s, ds, l, 7)) /\ o.s.wn = BNext(s, ds).wn
=============================================================================
