------------------------------ MODULE SaltTrace ------------------------------
(***************************************************************************)
(* Trace specification for the data plane: histories recorded from real    *)
(* sessions (long, concurrent, faulty, cancelled, under attack) have to be *)
(* behaviours of the endpoint operators of SaltV2.                          *)
(*                                                                         *)
(* Events, in the order they happened (e = side):                          *)
(*  call  a write call id with messages ds and flag last was made          *)
(*  tx    the session handed one write (packets pk, flag last) to the      *)
(*        transport; now = the time keeper's time at that moment           *)
(*  txe   that transport write ended: r = "ok" | "fail" | "cancel"         *)
(*  end   write call id ended: r = "ret" | "Com" | "cancel" | other        *)
(*  rd    a read ended; m = the message the transport gave it (x = "none": *)
(*        it took none), r/d/last = what the read did                      *)
(* A message is <<size class, serial>> (serial 0 for the empty message).   *)
(***************************************************************************)
EXTENDS SaltV2, Json, IOUtils

CONSTANTS TraceFile
Traces == JsonDeserialize(TraceFile)

VARIABLES tr, i, S, calls
vars == <<tr, i, S, calls>>

Ev(k) == Traces[tr].ev[k]
T0(t) == Traces[t]

Open(role, st) == [Endpoint(role, IF role = "c" THEN "cE" ELSE "sE") EXCEPT
                     !.ph = "open", !.dh = <<"cE", "sE">>, !.wn = st.wn, !.rn = st.rn, !.bm4 = st.bm4]
Cfg == [ct |-> TRUE, st |-> TRUE, chk |-> "rec", rej |-> <<"", "">>, ident |-> "cS"]

Init == /\ tr \in 1..Len(Traces) /\ i = 0
        /\ S = [e \in {"c", "s"} |-> Open(e, IF e = "c" THEN T0(tr).c ELSE T0(tr).s)]
        /\ calls = [e \in {"c", "s"} |-> {}]

\* the packet term of a recorded packet
Pk(p) == E(p.last, <<"cE", "sE">>, p.n,
           IF p.t = "M4" THEN M4(p.time, "cS", NIL) ELSE IF p.t = "APP" THEN App(p.time, p.ds[1])
           ELSE IF p.t = "MUL" THEN Mul(p.time, p.ds) ELSE Bad("?"))
Norm(m) == IF m.body.t = "M4" THEN [m EXCEPT !.body.sig = NIL] ELSE m

Call(v) ==
  /\ v.k = "call"
  /\ calls' = [calls EXCEPT ![v.e] = @ \cup {[id |-> v.id, st |-> "new"]}]
  /\ UNCHANGED S

Tx(v) ==
  /\ v.k = "tx"
  /\ \E c \in calls[v.e] :
       /\ c.st = "new"
       /\ \E cv \in {Ev(c.id)} :     \* a call's id is the index of its event
          \E o \in {DoWriteAt(Cfg, S[v.e], cv.ds, cv.last, "", v.now)} :
          \E w \in {TLCEval(o.w[1])} :
              /\ w.last = v.last
              /\ Len(w.ms) = Len(v.pk)
              /\ \A j \in 1..Len(v.pk) : Norm(w.ms[j]) = Pk(v.pk[j])
              /\ S' = [S EXCEPT ![v.e] = o.s]
       /\ calls' = [calls EXCEPT ![v.e] = (@ \ {c}) \cup {[id |-> c.id, st |-> "tx" \o ToString(i + 1)]}]

TxEnd(v) ==
  /\ v.k = "txe"
  /\ \E c \in calls[v.e] :
       /\ c.st = "tx" \o ToString(v.tx)
       /\ calls' = [calls EXCEPT ![v.e] = (@ \ {c}) \cup {[id |-> c.id, st |-> v.r]}]
  /\ UNCHANGED S

\* a call ends as its transport write did; a call cancelled before anything was handed over had no effect
End(v) ==
  /\ v.k = "end"
  /\ \E c \in calls[v.e] :
       /\ c.id = v.id
       /\ \/ c.st = "ok" /\ v.r = "ret"
          \/ c.st = "fail" /\ v.r = "Com"
          \/ c.st \in {"cancel", "new"} /\ v.r = "cancel"
       /\ calls' = [calls EXCEPT ![v.e] = @ \ {c}]
  /\ UNCHANGED S

Rd(v) ==
  /\ v.k = "rd"
  /\ LET s == S[v.e] IN
     IF v.m.x = "none"
     THEN IF v.r = "cancel" THEN S' = S
          ELSE /\ s.q # <<>> /\ v.r = "data"
               /\ LET o == PopQ(s) IN o.r.d = v.d /\ S' = [S EXCEPT ![v.e] = o.s]
     ELSE /\ s.q = <<>>
          /\ LET p0 == IF v.m.x = "ok" THEN Pk(Ev(v.m.ev).pk[v.m.j]) ELSE NIL
                 p  == IF v.m.x = "ok" THEN [p0 EXCEPT !.last = IF v.m.fl THEN ~@ ELSE @]
                       ELSE IF v.m.x = "eof" THEN EOF ELSE G("bad")
                 o  == DRecv(Cfg, s, p)
             IN  /\ IF o.r.k = "Com" THEN v.r \in {"Com", "BadPeer"} ELSE v.r = o.r.k
                 /\ o.r.k = "data" => (v.d = o.r.d /\ v.last = o.r.last)
                 /\ S' = [S EXCEPT ![v.e] = o.s]
  /\ UNCHANGED calls

Next ==
  /\ i < Len(Traces[tr].ev)
  /\ i' = i + 1 /\ tr' = tr
  /\ \E v \in {Ev(i + 1)} : Call(v) \/ Tx(v) \/ TxEnd(v) \/ End(v) \/ Rd(v)

Spec == Init /\ [][Next]_vars

\* nonces never repeat in any accepted history: counters only grow (C04)
CountersGrow == [][ \A e \in {"c", "s"} : S'[e].wn >= S[e].wn /\ S'[e].rn >= S[e].rn ]_vars

ASSUME \A t \in 1..Len(Traces) : TLCSet(100 + t, 0)
Progress == IF TLCGet(100 + tr) < i THEN TLCSet(100 + tr, i) ELSE TRUE
Report == \A t \in 1..Len(Traces) : PrintT("OUT " \o ToString(t) \o " " \o ToString(TLCGet(100 + t)) \o " " \o ToString(Len(Traces[t].ev)))
=============================================================================
