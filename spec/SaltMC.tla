------------------------------- MODULE SaltMC -------------------------------
(***************************************************************************)
(* The exhaustive model: one client session, one server session, and the   *)
(* attacker on the transport between them.  Also the generator: every      *)
(* transition TLC takes is printed (GenConstraint) and replayed in the     *)
(* real code by harness/replay.py.                                          *)
(***************************************************************************)
EXTENDS SaltV2, Json

CONSTANTS Cfgs,        \* set of configuration records
          Batches,     \* set of sequences of size classes: the write calls an application may make
          MaxW,        \* write calls per side
          MaxT,        \* write calls of both sides together
          Lasts,       \* values of is_last used
          Faults,      \* transport faults on application writes, subset of {"", "lost", "sent"}
          Budget,      \* how many attacker moves that the victim survives
          Attack,      \* which attacker message families are enabled
          PrintGen     \* print transitions

VARIABLES cfg, cl, sv, toS, toC, seen, bud, tx, rx, wlog, obs, nid
vars == <<cfg, cl, sv, toS, toC, seen, bud, tx, rx, wlog, obs, nid>>
\* wlog: every encrypted packet put on the wire, in order (as sets per side) -- a history variable;
\* tx/rx: messages written / delivered per side -- history variables
View == <<cfg, cl, sv, toS, toC, seen, bud, tx, rx, wlog>>

\* ------------------------------------------------------- configurations
Base == [kind |-> "v2", want |-> "none", b2 |-> FALSE, b4 |-> FALSE, ct |-> TRUE, st |-> TRUE,
         chk |-> "rec", rej |-> <<"", "">>, ident |-> "cS", sident |-> "sS", addr |-> "any", a2 |-> "def"]

CfgAll == {[Base EXCEPT !.want = w, !.b2 = p, !.b4 = q, !.ct = u, !.st = v, !.chk = k] :
             w \in {"none", "sS", "oS"}, p \in BOOLEAN, q \in BOOLEAN, u \in BOOLEAN, v \in BOOLEAN, k \in {"rec", "null"}}
CfgBuf == {[Base EXCEPT !.want = w, !.b2 = p, !.b4 = q] : w \in {"none", "sS"}, p \in BOOLEAN, q \in BOOLEAN}
CfgAtk == {[Base EXCEPT !.want = w, !.b2 = p, !.b4 = q, !.ct = (w = "none"), !.st = (w # "none")] :
             w \in {"none", "sS", "xS", "oS"}, p \in BOOLEAN, q \in BOOLEAN}
CfgMitm == {[Base EXCEPT !.want = w] : w \in {"none", "sS"}}
CfgOne == {Base}
CfgTwo == {Base, [Base EXCEPT !.b2 = TRUE, !.b4 = TRUE, !.st = FALSE]}
CfgBuf4 == {[Base EXCEPT !.b2 = p, !.b4 = q] : p \in BOOLEAN, q \in BOOLEAN}
CfgTime == {[Base EXCEPT !.b2 = p, !.b4 = q, !.ct = u, !.st = v, !.chk = k, !.rej = r] :
             p \in BOOLEAN, q \in BOOLEAN, u \in BOOLEAN, v \in BOOLEAN, k \in {"rec", "null"},
             r \in { <<"", "">>, <<"c","M2">>, <<"c","M3">>, <<"c","DATA">>, <<"s","M1">>, <<"s","M4">>, <<"s","DATA">> }}
CfgNull == {[Base EXCEPT !.b2 = p, !.b4 = q, !.ct = u, !.st = v, !.chk = "null", !.want = w] :
             p \in BOOLEAN, q \in BOOLEAN, u \in BOOLEAN, v \in BOOLEAN, w \in {"none", "sS", "oS"}}
CfgRej == {[Base EXCEPT !.b4 = q, !.rej = r] : q \in BOOLEAN,
             r \in { <<"c","DATA1">>, <<"c","DATAn">>, <<"s","DATA1">>, <<"s","DATAn">>, <<"c","DATA">>, <<"s","DATA">> }}
CfgA1 == {[Base EXCEPT !.kind = "a1", !.addr = a, !.a2 = p] :
             a \in {"any", "sS", "oS"}, p \in {"def", "inj1", "inj3", "inj0", "inj127"}}
CfgWant == {[Base EXCEPT !.want = w, !.b2 = p, !.st = v, !.ct = u] :
             w \in {"none", "sS", "oS"}, p \in BOOLEAN, v \in BOOLEAN, u \in BOOLEAN}

\* --------------------------------------------------------------- init
NoObs == [a |-> "init", e |-> "", m |-> NIL, ds |-> <<>>, last |-> FALSE, f |-> "", w |-> <<>>, r |-> Res(""), c |-> <<>>, ph |-> "", ph0 |-> "", peer |-> "", dh |-> <<>>]

Init ==
  /\ cfg \in Cfgs
  /\ cl = Endpoint("c", "cE")
  /\ sv = [Endpoint("s", "sE") EXCEPT !.ph = "w1"]
  /\ toS = <<>> /\ toC = <<>> /\ seen = {} /\ bud = Budget
  /\ tx = [c |-> <<>>, s |-> <<>>] /\ rx = [c |-> <<>>, s |-> <<>>]
  /\ wlog = [c |-> <<>>, s |-> <<>>]
  /\ obs = NoObs
  /\ nid = IF PrintGen THEN (LET k == TLCGet(1) + 1 IN IF TLCSet(1, k) THEN k ELSE 0) ELSE 0

\* ----------------------------------------------------------- plumbing
RECURSIVE Flat(_)
Flat(ws) == IF ws = <<>> THEN <<>> ELSE Head(ws).ms \o Flat(Tail(ws))
Rng(q) == {q[i] : i \in 1..Len(q)}

Ep(e) == IF e = "c" THEN cl ELSE sv

Obs(a, e, m, ds, last, f, o) ==
  [a |-> a, e |-> e, m |-> m, ds |-> ds, last |-> last, f |-> f, w |-> o.w, r |-> o.r, c |-> o.c, ph |-> o.s.ph, ph0 |-> Ep(e).ph,
   peer |-> o.s.peer, dh |-> o.s.dh]

Commit(e, o) ==
  LET ms == Flat(o.w) IN
  /\ IF e = "c" THEN cl' = o.s /\ sv' = sv ELSE sv' = o.s /\ cl' = cl
  /\ seen' = seen \cup Rng(ms)
  /\ wlog' = [wlog EXCEPT ![e] = @ \o SelectSeq(ms, LAMBDA m : m.t = "E")]
  /\ rx' = IF o.r.k = "data" THEN [rx EXCEPT ![e] = Append(@, o.r.d)] ELSE rx
  /\ nid' = IF PrintGen THEN (LET k == TLCGet(1) + 1 IN IF TLCSet(1, k) THEN k ELSE 0) ELSE 0

\* ------------------------------------------------------------- actions
StartC ==
  /\ cl.ph = "init"
  /\ LET o == Start(cfg, cl) IN
     /\ Commit("c", o) /\ toS' = toS \o Flat(o.w) /\ obs' = Obs("start", "c", NIL, <<>>, FALSE, "", o)
  /\ UNCHANGED <<cfg, toC, bud, tx>>

\* another A1/A2 exchange over the same transport: the same server session is asked again, maybe for another address
Again ==
  /\ cfg.kind = "a1" /\ cl.ph = "done" /\ sv.ph = "done" /\ cl.nw < MaxW - 1
  /\ \E a \in {"any", "sS", "oS"} :
       LET c == [cfg EXCEPT !.addr = a] o == Start(c, [cl EXCEPT !.nw = @ + 1]) IN
       /\ cfg' = c
       /\ cl' = o.s /\ sv' = [sv EXCEPT !.ph = "w1"]
       /\ seen' = seen \cup Rng(Flat(o.w)) /\ toS' = Flat(o.w) /\ toC' = <<>>
       /\ nid' = IF PrintGen THEN (LET k == TLCGet(1) + 1 IN IF TLCSet(1, k) THEN k ELSE 0) ELSE 0
       /\ obs' = Obs("again", "c", NIL, <<>>, FALSE, a, o)
  /\ UNCHANGED <<bud, tx, rx, wlog>>

\* a session object whose first attempt got no further than the peer's first message (refused, an A1 question, no such
\* server, connection lost) is started again: it is as good as new
Retry(e) ==
  LET s == Ep(e) IN
  /\ "retry" \in Attack /\ bud > 0 /\ bud' = bud - 1
  /\ s.dh = <<>> /\ s.ph \in (IF e = "c" THEN {"fail"} ELSE {"fail", "done"})
  /\ LET o == Start(cfg, Endpoint(e, IF e = "c" THEN "cE" ELSE "sE")) IN
     /\ Commit(e, o) /\ obs' = Obs("retry", e, NIL, <<>>, FALSE, "", o)
     /\ toS' = toS \o Flat(o.w)
  /\ UNCHANGED <<cfg, toC, tx>>

Busy(s) == s.ph \in Waiting \/ (s.ph = "open" /\ s.q = <<>>)

\* the honest transport delivers the oldest message in flight
Deliver(e) ==
  LET s == Ep(e) q == IF e = "c" THEN toC ELSE toS IN
  /\ Busy(s) /\ q # <<>>
  /\ LET o == Recv(cfg, s, Head(q)) IN
     /\ Commit(e, o)
     /\ obs' = Obs("dlv", e, Head(q), <<>>, FALSE, "", o)
     /\ IF e = "c" THEN toC' = Tail(toC) /\ toS' = toS \o Flat(o.w)
                   ELSE toS' = Tail(toS) /\ toC' = toC \o Flat(o.w)
  /\ UNCHANGED <<cfg, bud, tx>>

ReadQ(e) ==
  LET s == Ep(e) IN
  /\ s.ph = "open" /\ s.q # <<>>
  /\ LET o == PopQ(s) IN Commit(e, o) /\ obs' = Obs("rdq", e, NIL, <<>>, FALSE, "", o)
  /\ UNCHANGED <<cfg, toC, toS, bud, tx>>

\* a read that is abandoned while it waits
CancelRead(e) ==
  LET s == Ep(e) IN
  /\ s.ph = "open" /\ s.q = <<>> /\ "cancel" \in Attack
  /\ LET o == Out(s, <<>>, Res("cancel"), <<>>) IN Commit(e, o) /\ obs' = Obs("crd", e, NIL, <<>>, FALSE, "", o)
  /\ UNCHANGED <<cfg, toC, toS, bud, tx>>

Write(e, b, l, f) ==
  LET s == Ep(e)
      ds == [i \in 1..Len(b) |-> <<b[i], s.ns + i>>] IN
  /\ s.ph = "open" /\ s.nw < MaxW /\ cl.nw + sv.nw < MaxT
  /\ LET o == DoWrite(cfg, s, ds, l, f) IN
     /\ Commit(e, o)
     /\ tx' = [tx EXCEPT ![e] = @ \o ds]
     /\ obs' = Obs("wr", e, NIL, ds, l, f, o)
     /\ IF e = "c" THEN toS' = toS \o Flat(o.w) /\ toC' = toC ELSE toC' = toC \o Flat(o.w) /\ toS' = toS
  /\ UNCHANGED <<cfg, bud>>

\* ------------------------------------------------------------- attacker
XKnows(dh) == Len(dh) = 2 /\ (dh[1] = "xE" \/ dh[2] = "xE")
\* older sessions between the same peers, and with the attacker as a peer (replayed for real before a behaviour that
\* uses what the attacker kept of them)
OldM1 == M1(1, "cO", "none")
OldM2 == M2(1, "sO", FALSE)
OldPkts == { E(FALSE, <<"cO","sO">>, 2, M3(2, "sS", Sig("sS", "1", OldM1, OldM2))),
             E(FALSE, <<"cO","sO">>, 1, M4(2, "cS", Sig("cS", "2", OldM1, OldM2))),
             E(FALSE, <<"cO","sO">>, 3, App(3, <<"a", 1>>)),
             E(TRUE,  <<"cO","sO">>, 4, App(3, <<"a", 1>>)) }
OldSigs == { Sig("sS", "1", M1(1, "xE", "none"), OldM2), Sig("cS", "2", OldM1, M2(1, "xE", FALSE)) }
KnownSigs == OldSigs \cup { m.body.sig : m \in {k \in seen : k.t = "E" /\ XKnows(k.dh) /\ k.body.t \in {"M3", "M4"}} }

XM1 == { M1(1, "xE", w) : w \in {"none", "sS"} } \cup {M1(0, "xE", "none")}
XM2 == { M2(1, "xE", FALSE), M2(0, "xE", FALSE), M2(1, "zero", TRUE) }

\* bodies the attacker can make for a peer whose transcript is (a, b)
HsBodies(s) ==
  LET pre == IF s.role = "c" THEN "1" ELSE "2"
      oth == IF s.role = "c" THEN "2" ELSE "1"
      Mk(k, sg) == IF s.role = "c" THEN M3(2, k, sg) ELSE M4(2, k, sg)
      Wr(k, sg) == IF s.role = "c" THEN M4(2, k, sg) ELSE M3(2, k, sg)
      good == Mk("xS", Sig("xS", pre, s.m1, s.m2))
  IN  { good,
        Mk("sS", Sig("xS", pre, s.m1, s.m2)), Mk("cS", Sig("xS", pre, s.m1, s.m2)),
        Mk("oS", Sig("xS", pre, s.m1, s.m2)),
        Mk("xS", Sig("xS", oth, s.m1, s.m2)), Mk("xS", Sig("xS", pre, s.m2, s.m1)),
        Mk("xS", Sig("xS", pre, OldM1, s.m2)), Mk("xS", Sig("xS", pre, s.m1, OldM2)),
        Mk("xS", Sig("xS", pre, [s.m1 EXCEPT !.time = 1 - @], s.m2)),
        Mk("xS", Sig("xS", pre, s.m1, [s.m2 EXCEPT !.time = 1 - @])),
        Mk("xS", Sig("none", pre, s.m1, s.m2)),
        \* the attacker's own signature of an older session
        Mk("xS", IF s.role = "c" THEN Sig("xS", "1", OldM1, M2(1, "xE", FALSE)) ELSE Sig("xS", "2", M1(1, "xE", "none"), OldM2)),
        Wr("xS", Sig("xS", oth, s.m1, s.m2)), Wr("xS", Sig("xS", pre, s.m1, s.m2)),
        [good EXCEPT !.x = "short"], [good EXCEPT !.x = IF s.role = "c" THEN "long" ELSE "trail"], [good EXCEPT !.x = "type"],
        App(2, <<"a", 0>>), Bad("b0"), Bad("b5") }
      \cup { Mk(sg.by, sg) : sg \in KnownSigs } \cup { Mk("xS", sg) : sg \in KnownSigs }

DataBodies == { App(5, <<"a", 900>>), App(5, <<"e", 901>>), Mul(5, << <<"a", 902>>, <<"e", 903>> >>),
                [App(5, <<"a", 904>>) EXCEPT !.x = "type"], [Mul(5, << <<"a", 905>>, <<"a", 906>> >>) EXCEPT !.x = "trail"],
                [Mul(5, << <<"a", 907>>, <<"a", 908>> >>) EXCEPT !.x = "cntmore"],
                [Mul(5, << <<"a", 907>>, <<"a", 908>> >>) EXCEPT !.x = "lenmore"],
                [Mul(5, << <<"a", 907>>, <<"a", 908>> >>) EXCEPT !.x = "lencut"],
                [Mul(5, <<>>) EXCEPT !.x = "cnt0"],
                Bad("b0"), Bad("b1"), Bad("b5"), Bad("type0"), M3(5, "xS", Sig("xS", "1", NIL, NIL)) }

XDh(e) == IF e = "c" THEN { <<"cE","xE">> } ELSE { <<"xE","sE">> }

XPkts(e) ==
  LET s == Ep(e) IN
  IF XKnows(s.dh)
  THEN LET bs == IF s.ph = "open" THEN DataBodies ELSE HsBodies(s)
           g  == IF s.ph = "open" THEN App(5, <<"a", 900>>)
                 ELSE IF e = "c" THEN M3(2, "xS", Sig("xS", "1", s.m1, s.m2)) ELSE M4(2, "xS", Sig("xS", "2", s.m1, s.m2))
       IN  { E(FALSE, s.dh, s.rn, b) : b \in bs } \cup
           { E(l, s.dh, n, g) : l \in BOOLEAN, n \in {s.rn - 1, s.rn, s.rn + 1, s.rn + 2, s.rn + 4} } \cup
           { E(FALSE, <<"cE","sE">>, s.rn, Bad("guess")) }
  ELSE { E(FALSE, dh, s.rn, g) : dh \in XDh(e), g \in {
             IF s.ph = "open" THEN App(5, <<"a", 900>>) ELSE M3(2, "xS", Sig("xS", "1", s.m1, s.m2)) } }

Tamper(m) ==
  CASE m.t = "M1" -> { [m EXCEPT !.key = k] : k \in {"xE", "jE", "LOW", "zero", "sE", "cO"} } \cup
                     { [m EXCEPT !.want = w] : w \in {"none", "sS", "oS", "xS"} } \cup
                     { [m EXCEPT !.time = t] : t \in {0, 1, 9} } \cup
                     { [m EXCEPT !.x = x] : x \in {"trunc", "type", "prot", "rsv", "trail", "wantcut"} }
    [] m.t = "M2" -> { [m EXCEPT !.key = k] : k \in {"xE", "jE", "LOW", "zero", "cE", "sO"} } \cup
                     { [m EXCEPT !.time = t] : t \in {0, 1, 9} } \cup { [m EXCEPT !.nss = TRUE] } \cup
                     { [m EXCEPT !.x = x] : x \in {"trunc", "type", "rsv", "trail"} }
    [] m.t = "E"  -> { [m EXCEPT !.last = ~@] } \cup
                     { [m EXCEPT !.x = x] : x \in {"flip", "trunc", "ext", "type", "rsv"} }
    [] m.t = "A1" -> { A1(0, "none"), A1(1, "sS"), A1(1, "oS") } \cup
                     { [m EXCEPT !.x = x] : x \in {"anyaddr", "size31", "size33", "sizemis", "at2", "trunc", "type", "rsv", "long"} }
    [] m.t = "A2" -> { A2(TRUE, "none"), A2(FALSE, "inj1"), A2(FALSE, "inj0"), A2(FALSE, "inj127") } \cup
                     { [m EXCEPT !.x = x] : x \in {"cntmore", "cntless", "nsscnt", "nolast", "badchar", "badchar2",
                                                   "trunc", "type", "rsv", "trail", "neg"} }
    [] OTHER -> {}

Garbage == { G("empty"), G("one"), G("two"), G("rand17"), G("rand18"), G("rand40"), G("rand200"), G("m1type"), G("eshort") }

AttackMsgs(e) ==
  LET s == Ep(e) q == IF e = "c" THEN toC ELSE toS
      cross == CASE s.ph = "w1" -> {"M1", "A1"} [] s.ph = "w2" -> {"M2"} [] s.ph = "w9" -> {"A2"} [] OTHER -> {"E"} IN
  (IF "replay" \in Attack THEN seen ELSE {}) \cup
  (IF "tamper" \in Attack /\ q # <<>> THEN Tamper(Head(q)) ELSE {}) \cup
  (IF "tamperall" \in Attack THEN UNION {Tamper(m) : m \in {k \in seen : k.t \in cross}} ELSE {}) \cup
  (IF "forge" \in Attack THEN (IF s.ph = "w1" THEN XM1 ELSE {}) \cup (IF s.ph = "w2" THEN XM2 ELSE {}) \cup
        (IF s.ph \in {"w3", "w4", "open"} THEN XPkts(e) \cup OldPkts ELSE {}) ELSE {}) \cup
  (IF "a1" \in Attack /\ s.ph = "w1" THEN {A1(0, "none"), A1(1, "sS"), A1(1, "oS")} ELSE {}) \cup
  (IF "garbage" \in Attack THEN Garbage ELSE {}) \cup
  (IF "eof" \in Attack THEN {EOF} ELSE {})

\* the attacker hands message m to e; messages in flight stay in flight.  Moves after which the victim
\* has given up, or is exactly where it was, are free; the others use up the budget.
\* In the handshake the attacker replaces a message: the one in flight is dropped.
Inject(e) ==
  LET s == Ep(e) IN
  /\ Attack # {} /\ Busy(s)
  /\ \E m \in AttackMsgs(e) :
       LET o == Recv(cfg, s, m)
           free == o.s = s \/ o.s.ph \in {"fail", "over"}
           q == IF e = "c" THEN toC ELSE toS
           q1 == IF s.ph \in Waiting /\ q # <<>> /\ q[1].t # "E" THEN Tail(q) ELSE q
       IN /\ (IF q = <<>> THEN TRUE ELSE m # Head(q))
          /\ (free \/ bud > 0)
          /\ bud' = IF free THEN bud ELSE bud - 1
          /\ Commit(e, o)
          /\ obs' = Obs("inj", e, m, <<>>, FALSE, "", o)
          /\ IF e = "c" THEN toC' = q1 /\ toS' = toS \o Flat(o.w)
                        ELSE toS' = q1 /\ toC' = toC \o Flat(o.w)
  /\ UNCHANGED <<cfg, tx>>

\* the transport refuses the k-th write call of the step in which e handles its next message
FailWrite(e) ==
  LET s == Ep(e) q == IF e = "c" THEN toC ELSE toS IN
  /\ "hsfault" \in Attack
  /\ \/ s.ph \in Waiting /\ q # <<>>
     \/ e = "c" /\ s.ph = "init"
  /\ LET o == IF s.ph = "init" THEN Start(cfg, s) ELSE Recv(cfg, s, Head(q)) IN
     \E k \in 1..Len(o.w) :
       LET o1 == Out(Fail(s), SubSeq(o.w, 1, k - 1), Res("Com"), o.c) IN
       /\ Commit(e, o1)
       /\ obs' = Obs("hsf", e, IF s.ph = "init" THEN NIL ELSE Head(q), <<>>, FALSE, ToString(k), o1)
       /\ IF e = "c" THEN toC' = (IF s.ph = "init" THEN toC ELSE Tail(toC)) /\ toS' = toS \o Flat(o1.w)
                     ELSE toS' = Tail(toS) /\ toC' = toC \o Flat(o1.w)
  /\ UNCHANGED <<cfg, bud, tx>>

Drop(e) ==
  LET q == IF e = "c" THEN toC ELSE toS IN
  /\ "drop" \in Attack /\ bud > 0 /\ q # <<>> /\ bud' = bud - 1
  /\ LET o == Out(Ep(e), <<>>, Res("drop"), <<>>) IN Commit(e, o) /\ obs' = Obs("drp", e, NIL, <<>>, FALSE, "", o)
  /\ IF e = "c" THEN toC' = Tail(toC) /\ toS' = toS ELSE toS' = Tail(toS) /\ toC' = toC
  /\ UNCHANGED <<cfg, tx>>

Next ==
  \/ StartC
  \/ Again
  \/ \E e \in {"c", "s"} :
       \/ Deliver(e) \/ Retry(e) \/ ReadQ(e) \/ CancelRead(e) \/ Inject(e) \/ FailWrite(e) \/ Drop(e)
       \/ \E b \in Batches, l \in Lasts, f \in Faults : Write(e, b, l, f)

Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ generator
GenConstraint == PrintGen => PrintT("GEN " \o ToString(nid) \o " " \o ToString(nid') \o " " \o ToJson(obs'))
GenInit == PrintGen => ((nid > 0 /\ obs = NoObs) => PrintT("INI " \o ToString(nid) \o " " \o ToJson(cfg)))
ASSUME TLCSet(1, 0)

\* ----------------------------------------------------------- properties
\* C01: whoever the client believes in signed exactly this transcript, and is the wanted one;
\*      if it is the honest server, the server really has that transcript.
ClientAuth ==
  cl.ph = "open" =>
    /\ cl.peer # "none"
    /\ cfg.want # "none" => cl.peer = cfg.want
    /\ cl.peer = cfg.sident => sv.m1 = cl.m1 /\ sv.m2 = cl.m2 /\ sv.dh = cl.dh
    /\ cl.peer \in {cfg.sident, "xS"}       \* no other key could have signed
\* C02
ServerAuth ==
  /\ sv.ph = "open" =>
       /\ sv.peer # "none"
       /\ sv.peer = cfg.ident => cl.m1 = sv.m1 /\ cl.m2 = sv.m2 /\ cl.dh = sv.dh
       /\ sv.peer \in {cfg.ident, "xS"}
  /\ sv.ph # "open" /\ sv.ph # "over" => sv.peer = "none"
\* C03: all but the opening messages is sealed under the session's own key agreement; the client's
\*      identity and data only go to a proven server; secrets of an honest pair stay secret.
OnlySealed ==
  /\ \A m \in seen : m.t \in {"M1", "M2", "A1", "A2", "E"}
  /\ \A i \in 1..Len(wlog.c) : wlog.c[i].dh = <<"cE", cl.m2.key>>
  /\ \A i \in 1..Len(wlog.s) : wlog.s[i].dh = <<sv.m1.key, "sE">>
ProvenFirst ==
  /\ wlog.c # <<>> => cl.peer # "none"
  /\ cl.peer = cfg.sident => \A i \in 1..Len(wlog.c) : ~XKnows(wlog.c[i].dh)
FailedSilent == [][ (cl.ph = "fail" => wlog'.c = wlog.c) /\ (sv.ph = "fail" => wlog'.s = wlog.s) ]_vars
\* C04
Counters(w, first) == \A i \in 1..Len(w) : w[i].n = first + 2 * (i - 1)
NoncesFresh ==
  /\ Cardinality({ <<m.dh, m.n>> : m \in Rng(wlog.c) \cup Rng(wlog.s) }) = Len(wlog.c) + Len(wlog.s)
  /\ "lost" \notin Faults => Counters(wlog.c, 1) /\ Counters(wlog.s, 2)
  /\ \A i \in 1..Len(wlog.c) : wlog.c[i].n % 2 = 1
  /\ \A i \in 1..Len(wlog.s) : wlog.s[i].n % 2 = 0
\* C05, C06
\* what e may deliver of the messages t written by the other side, whose packets are w: all of them, unless its
\* time checker refuses some packets (C13)
RECURSIVE Allowed(_, _)
Allowed(e, w) ==
  IF w = <<>> THEN <<>>
  ELSE LET m == Head(w) ds == IF m.body.t \in {"APP", "MUL"} THEN m.body.ds ELSE <<>> IN
       (IF Check(cfg, e, IF m.n = FirstRn(e) THEN "DATA1" ELSE "DATAn", 0) = "ok" THEN ds ELSE <<>>) \o Allowed(e, Tail(w))
Passed(e, w, t) == IF cfg.rej[1] = e THEN Allowed(e, w) ELSE t
Pfx(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
DeliveredPrefix ==
  /\ cl.peer = cfg.sident => Pfx(rx.c, Passed("c", wlog.s, tx.s))
  /\ sv.peer = cfg.ident  => Pfx(rx.s, Passed("s", wlog.c, tx.c))
\* with nothing dropped or lost, everything is either delivered, queued or in flight
Pending(q) == LET ds(m) == IF m.t = "E" /\ m.body.t \in {"APP", "MUL"} THEN m.body.ds ELSE <<>> IN
  LET RECURSIVE F(_)
      F(z) == IF z = <<>> THEN <<>> ELSE ds(Head(z)) \o F(Tail(z)) IN F(q)
NothingLost ==
  (Budget = 0 /\ Attack = {} /\ Faults = {""} /\ cfg.rej = <<"", "">>) =>
    /\ tx.c = rx.s \o sv.q \o Pending(toS)
    /\ tx.s = rx.c \o cl.q \o Pending(toC)
\* C08: with an honest transport nobody fails unless the wrong server was named or a checker refuses
HonestCompletes ==
  (Attack = {} /\ Faults = {""} /\ cfg.rej = <<"", "">>) =>
    ((cl.ph = "fail" \/ sv.ph = "fail") => cfg.want \notin {"none", cfg.sident})
HonestAgree ==
  (Attack = {} /\ cl.ph = "open" /\ sv.ph = "open") =>
     cl.dh = sv.dh /\ cl.peer = cfg.sident /\ sv.peer = cfg.ident
\* C07
LastMarks ==
  \A e \in {"c", "s"} : obs.a = "wr" /\ obs.e = e =>
     \A i \in 1..Len(obs.w) : /\ obs.w[i].last = obs.last
                              /\ \A j \in 1..Len(obs.w[i].ms) : obs.w[i].ms[j].last = (obs.last /\ j = Len(obs.w[i].ms))
\* C10
A1NoSession == cfg.kind = "a1" => (sv.ph \in {"w1", "done", "fail"} /\ sv.dh = <<>> /\ Len(Flat(obs.w)) <= 1)

Inv == ClientAuth /\ ServerAuth /\ OnlySealed /\ ProvenFirst /\ NoncesFresh /\ DeliveredPrefix /\ NothingLost
       /\ HonestCompletes /\ HonestAgree /\ LastMarks /\ A1NoSession

\* no time beyond what the model needs
EmptySet == {}
NoFault == {""}
AllFaults == {"", "lost", "sent"}
BothLast == {FALSE, TRUE}
NoLast == {FALSE}
B1 == { <<"a">> }
B3 == { <<"a">>, <<"a","e">>, <<"L","a">> }
B6 == { <<"a">>, <<"e">>, <<"a","e">>, <<"e","a","a">>, <<"L">>, <<"a","L">> }
B9 == { <<"a">>, <<"e">>, <<"a","a">>, <<"e","a">>, <<"a","e">>, <<"e","e","e">>, <<"L">>, <<"L","a">>, <<"m","a">>, <<"a","L">>, <<"L","L","a">> }
AtkAll == {"replay", "tamper", "forge", "garbage", "eof", "hsfault", "a1"}
AtkTamper == {"tamper", "tamperall"}
AtkHs == {"replay", "tamper", "tamperall", "forge", "garbage", "eof", "hsfault", "a1", "drop"}
AtkMitm == {"replay", "tamperall", "forge"}
AtkData == {"replay", "tamper", "tamperall", "forge", "garbage", "eof", "cancel"}
AtkDrop == {"replay", "tamper", "forge", "drop", "eof", "cancel"}
AtkRetry == {"retry", "replay", "tamper", "garbage", "eof", "a1", "hsfault"}
CfgRetry == {[Base EXCEPT !.want = w, !.b2 = p, !.b4 = p, !.st = v, !.rej = r] : w \in {"none", "sS", "oS"}, p \in BOOLEAN, v \in BOOLEAN, r \in {<<"", "">>}}
            \cup {[Base EXCEPT !.kind = "a1"]} \cup {[Base EXCEPT !.rej = r] : r \in {<<"c", "M2">>, <<"s", "M1">>}}
AtkA1 == {"tamper", "garbage", "eof", "hsfault"}
=============================================================================
