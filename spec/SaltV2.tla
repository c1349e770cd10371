------------------------------- MODULE SaltV2 -------------------------------
(***************************************************************************)
(* Salt Channel v2 as implemented by saltchannel/v2 and saltchannel/a1a2:  *)
(* a client session, a server session, the transport between them, and a   *)
(* symbolic (Dolev-Yao) attacker who owns the transport.                    *)
(*                                                                         *)
(* Grain: one action = one interaction at the public API or the transport: *)
(*   - a session operation is started (handshake, read, write, do_a1a2);   *)
(*   - one message reaches a session that is waiting for one.  The session *)
(*     then runs until it waits again, returns or raises.                  *)
(* The endpoint operators (CStart, CRecv, SRecv, ARecv, DoWrite, PopQ) are *)
(* pure: endpoint state + input -> outcome record.  The exhaustive model,  *)
(* the trace specification SaltTrace and the two-session product all use   *)
(* the same operators.                                                     *)
(*                                                                         *)
(* Terms.  Cryptography is symbolic: a packet sealed under (dh, n) opens   *)
(* only under the same dh and n; a signature is (by, pre, a, b): by's      *)
(* signature over prefix pre and the exact bytes of messages a and b.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* ---------------------------------------------------------------- names
\* ephemeral (encryption) keys: cE client, sE server, cO/sO the same peers in an older session,
\* xE attacker, jE a key nobody knows, LOW a low-order point, "zero" = 32 zero bytes
\* signing keys: cS client, sS server, oS some other key, xS attacker

M1(tm, k, w)     == [t |-> "M1", time |-> tm, key |-> k, want |-> w, x |-> ""]
M2(tm, k, ns)    == [t |-> "M2", time |-> tm, key |-> k, nss |-> ns, x |-> ""]
Sig(by, p, a, b) == [by |-> by, pre |-> p, a |-> a, b |-> b]
M3(tm, sk, sg)   == [t |-> "M3", time |-> tm, sk |-> sk, sig |-> sg, x |-> ""]
M4(tm, sk, sg)   == [t |-> "M4", time |-> tm, sk |-> sk, sig |-> sg, x |-> ""]
App(tm, d)       == [t |-> "APP", time |-> tm, ds |-> <<d>>, x |-> ""]
Mul(tm, ds)      == [t |-> "MUL", time |-> tm, ds |-> ds, x |-> ""]
Bad(g)           == [t |-> "BAD", g |-> g, x |-> ""]      \* sealed content that is no packet
E(l, dh, n, b)   == [t |-> "E", last |-> l, dh |-> dh, n |-> n, body |-> b, x |-> ""]
A1(at, ad)       == [t |-> "A1", at |-> at, addr |-> ad, x |-> ""]
A2(ns, pr)       == [t |-> "A2", nss |-> ns, prot |-> pr, x |-> ""]
G(g)             == [t |-> "G", g |-> g, x |-> ""]        \* bytes that are no packet at all
EOF              == [t |-> "EOF", x |-> ""]               \* the transport fails instead of delivering
NIL              == [t |-> "NIL", x |-> ""]

\* application messages: <<size class, serial number>>
\* classes: "e" empty, "a" small, "m" 65535 bytes (largest that fits a multi packet), "L" larger
Big(d) == d[1] = "L"

\* ------------------------------------------------------------ outcomes
\* k: "wait" blocked in a read, "ret" operation returned, "data" a read returned d,
\*    "BadPeer" | "NoSuch" | "Time" | "Com" raised that exception ("Com" = any ComException)
\* opt: TRUE when the peer's message is tolerated today although it is not canonical
\*      (reserved bits, trailing bytes): refusing it with BadPeer is equally correct
Res(k)        == [k |-> k, d |-> <<>>, last |-> FALSE, opt |-> FALSE]
ResOpt(k, o)  == [k |-> k, d |-> <<>>, last |-> FALSE, opt |-> o]
Data(d, l, o) == [k |-> "data", d |-> d, last |-> l, opt |-> o]
WC(ms, l)     == [ms |-> ms, last |-> l]                  \* one write call on the transport
Out(s, w, r, c) == [s |-> s, w |-> w, r |-> r, c |-> c]   \* state, write calls, result, time checks

Endpoint(role, eph) ==
  [role |-> role, eph |-> eph, ph |-> "init", m1 |-> NIL, m2 |-> NIL, dh |-> <<>>, wn |-> 0, rn |-> 0,
   q |-> <<>>, qlast |-> FALSE, bm4 |-> FALSE, peer |-> "none", nw |-> 0, ns |-> 0]

Fail(s) == [s EXCEPT !.ph = "fail"]

\* ---------------------------------------------------------------- time
\* c is the configuration record; each side's clock shows a tick; without timing it shows 0
Tick(c, role, k) == IF (IF role = "c" THEN c.ct ELSE c.st) THEN k ELSE 0

\* The verdict of the receiving session's time checker on (kind, time).  c.rej = <<role, kind>>
\* makes a recording checker refuse that check ("DATA1": the first data packet, "DATAn": the later
\* ones, "DATA": all); the default checker refuses first times # 0, 1.
Check(c, role, kind, tm) ==
  IF c.rej = <<role, kind>> \/ (c.rej = <<role, "DATA">> /\ kind \in {"DATA1", "DATAn"}) THEN "Time"
  ELSE IF c.chk = "null" /\ kind \in {"M1", "M2"} /\ tm \notin {0, 1} THEN "BadPeer"
  ELSE "ok"

\* ------------------------------------------------------------- client
CStart(c, s) ==
  LET m == M1(Tick(c, "c", 1), s.eph, c.want)
  IN  Out([s EXCEPT !.ph = "w2", !.m1 = m], << WC(<<m>>, FALSE) >>, Res("wait"), <<>>)

CRecvM2(c, s, m) ==
  IF m.t = "EOF" THEN Out(Fail(s), <<>>, Res("Com"), <<>>)
  ELSE IF m.t # "M2" \/ m.x \in {"trunc", "type"} THEN Out(Fail(s), <<>>, Res("BadPeer"), <<>>)
  ELSE
  LET chk == << <<"M2", m.time>> >>
      v   == Check(c, "c", "M2", m.time)
      o   == m.x # ""
  IN  IF v # "ok" THEN Out(Fail(s), <<>>, ResOpt(v, o), chk)
      ELSE IF m.nss THEN Out(Fail(s), <<>>, ResOpt("NoSuch", o), chk)
      ELSE IF m.key \in {"LOW", "zero"} THEN Out(Fail(s), <<>>, Res("BadPeer"), chk)
      ELSE Out([s EXCEPT !.ph = "w3", !.m2 = m, !.dh = <<s.eph, m.key>>, !.wn = 1, !.rn = 2],
               <<>>, ResOpt("wait", o), chk)

Opens(s, m) == m.t = "E" /\ m.x \in {"", "rsv"} /\ m.dh = s.dh /\ m.n = s.rn

SigOk(b, p, a, z) == b.sig.by = b.sk /\ b.sig.pre = p /\ b.sig.a = a /\ b.sig.b = z

CRecvM3(c, s, m) ==
  IF m.t = "EOF" THEN Out(Fail(s), <<>>, Res("Com"), <<>>)
  ELSE IF ~Opens(s, m) \/ m.body.t # "M3" \/ m.body.x # ""
       THEN Out(Fail(s), <<>>, Res("BadPeer"), <<>>)
  ELSE
  LET b   == m.body
      chk == << <<"M3", b.time>> >>
      v   == Check(c, "c", "M3", b.time)
      o   == m.x # ""
      m4  == M4(Tick(c, "c", 2), c.ident, Sig(c.ident, "2", s.m1, s.m2))
      s1  == [s EXCEPT !.ph = "open", !.rn = s.rn + 2, !.peer = b.sk]
  IN  IF v # "ok" THEN Out(Fail(s), <<>>, ResOpt(v, o), chk)
      ELSE IF ~SigOk(b, "1", s.m1, s.m2) \/ (c.want # "none" /\ c.want # b.sk)
           THEN Out(Fail(s), <<>>, Res("BadPeer"), chk)
      ELSE IF c.b4 THEN Out([s1 EXCEPT !.bm4 = TRUE], <<>>, ResOpt("ret", o), chk)
      ELSE Out([s1 EXCEPT !.wn = s.wn + 2],
               << WC(<< E(FALSE, s.dh, s.wn, m4) >>, FALSE) >>, ResOpt("ret", o), chk)

\* ------------------------------------------------------------- server
SRecvM1(c, s, m) ==
  IF m.t = "EOF" THEN Out(Fail(s), <<>>, Res("Com"), <<>>)
  ELSE IF m.t = "A1" /\ m.x \in {"", "rsv"}
       THEN Out([s EXCEPT !.ph = "done"],
                << WC(<< IF m.at = 1 /\ m.addr # c.sident THEN A2(TRUE, "none") ELSE A2(FALSE, c.a2) >>, TRUE) >>,
                ResOpt("ret", m.x # ""), <<>>)
  ELSE IF m.t # "M1" \/ m.x \in {"trunc", "type", "prot", "wantcut"}
       THEN Out(Fail(s), <<>>, Res("BadPeer"), <<>>)
  ELSE
  LET chk == << <<"M1", m.time>> >>
      v   == Check(c, "s", "M1", m.time)
      o   == m.x # ""
      tm  == Tick(c, "s", 1)
      m2  == M2(tm, s.eph, FALSE)
      m3  == M3(IF c.b2 THEN tm ELSE Tick(c, "s", 2), c.sident, Sig(c.sident, "1", m, m2))
      dh  == <<m.key, s.eph>>
      e3  == E(FALSE, dh, 2, m3)
      s1  == [s EXCEPT !.m1 = m, !.m2 = m2]
  IN  IF v # "ok" THEN Out(Fail(s), <<>>, ResOpt(v, o), chk)
      ELSE IF m.want \notin {"none", c.sident}
           THEN Out(Fail(s1), << WC(<< M2(tm, "zero", TRUE) >>, TRUE) >>, ResOpt("NoSuch", o), chk)
      ELSE IF m.key \in {"LOW", "zero"}
           THEN Out(Fail(s1), IF c.b2 THEN <<>> ELSE << WC(<<m2>>, FALSE) >>, Res("BadPeer"), chk)
      ELSE Out([s1 EXCEPT !.ph = "w4", !.dh = dh, !.wn = 4, !.rn = 1],
               IF c.b2 THEN << WC(<<m2, e3>>, FALSE) >> ELSE << WC(<<m2>>, FALSE), WC(<<e3>>, FALSE) >>,
               ResOpt("wait", o), chk)

SRecvM4(c, s, m) ==
  IF m.t = "EOF" THEN Out(Fail(s), <<>>, Res("Com"), <<>>)
  ELSE IF ~Opens(s, m) \/ m.body.t # "M4" \/ m.body.x \notin {"", "trail"}
       THEN Out(Fail(s), <<>>, Res("BadPeer"), <<>>)
  ELSE
  LET b   == m.body
      chk == << <<"M4", b.time>> >>
      v   == Check(c, "s", "M4", b.time)
      o   == m.x # "" \/ b.x # ""
  IN  IF v # "ok" THEN Out(Fail(s), <<>>, ResOpt(v, o), chk)
      ELSE IF ~SigOk(b, "2", s.m1, s.m2) THEN Out(Fail(s), <<>>, Res("BadPeer"), chk)
      ELSE Out([s EXCEPT !.ph = "open", !.rn = s.rn + 2, !.peer = b.sk], <<>>, ResOpt("ret", o), chk)

\* ---------------------------------------------------------- data plane
\* A read: from the queue of an earlier multi packet if possible ...
PopQ(s) == Out([s EXCEPT !.q = Tail(s.q)], <<>>, Data(Head(s.q), s.qlast, FALSE), <<>>)

\* ... otherwise the next packet.  A packet that does not open leaves the endpoint as it was.
\* A packet the time checker refuses is used up: none of its messages is ever delivered.
\* "over": sealed by the true peer but not a proper packet; what the channel does afterwards is
\* not specified.
FirstRn(role) == IF role = "c" THEN 4 ELSE 3
DRecv(c, s, m) ==
  IF m.t = "EOF" THEN Out(s, <<>>, Res("Com"), <<>>)
  ELSE IF ~Opens(s, m) THEN Out(s, <<>>, Res("BadPeer"), <<>>)
  ELSE IF m.body.t \notin {"APP", "MUL"} \/ m.body.x \notin {"", "trail"} \/ Len(m.body.ds) = 0
       THEN Out([s EXCEPT !.ph = "over"], <<>>, Res("BadPeer"), <<>>)
  ELSE
  LET b   == m.body
      chk == << <<b.t, b.time>> >>
      v   == Check(c, s.role, IF s.rn = FirstRn(s.role) THEN "DATA1" ELSE "DATAn", b.time)
      o   == m.x # "" \/ b.x # ""
  IN  IF v # "ok" THEN Out([s EXCEPT !.rn = s.rn + 2, !.qlast = m.last], <<>>, ResOpt(v, o), chk)
      ELSE Out([s EXCEPT !.rn = s.rn + 2, !.q = Tail(b.ds), !.qlast = m.last],
               <<>>, Data(Head(b.ds), m.last, o), chk)

\* Packetisation of one write call.
OneMulti(ds) == Len(ds) > 1 /\ Len(ds) <= 65535 /\ \A i \in 1..Len(ds) : ~Big(ds[i])
Bodies(ds, tm) == IF OneMulti(ds) THEN << Mul(tm, ds) >> ELSE [i \in 1..Len(ds) |-> App(tm, ds[i])]

\* fault: "" | "lost" (the transport raises, nothing got out) | "sent" (raises after sending)
DoWriteAt(c, s, ds, last, fault, tm) ==
  LET bs  == TLCEval((IF s.bm4 THEN << M4(tm, c.ident, Sig(c.ident, "2", s.m1, s.m2)) >> ELSE <<>>) \o Bodies(ds, tm))
      n   == Len(bs)
      ps  == TLCEval([i \in 1..n |-> E(last /\ i = n, s.dh, s.wn + 2 * (i - 1), bs[i])])
      s1  == [s EXCEPT !.wn = s.wn + 2 * n, !.bm4 = FALSE, !.nw = s.nw + 1, !.ns = s.ns + Len(ds)]
  IN  Out(s1, IF fault = "lost" THEN <<>> ELSE << WC(ps, last) >>,
          IF fault = "" THEN Res("ret") ELSE Res("Com"), <<>>)
DoWrite(c, s, ds, last, fault) == DoWriteAt(c, s, ds, last, fault, Tick(c, s.role, 3 + s.nw))

\* ------------------------------------------------------ A1 client
AStart(c, s) ==
  LET m == A1(IF c.addr = "any" THEN 0 ELSE 1, IF c.addr = "any" THEN "none" ELSE c.addr)
  IN  Out([s EXCEPT !.ph = "w9"], << WC(<<m>>, FALSE) >>, Res("wait"), <<>>)

ARecv(c, s, m) ==
  IF m.t = "EOF" THEN Out(Fail(s), <<>>, Res("Com"), <<>>)
  ELSE IF m.t # "A2" \/ m.x \notin {"", "rsv", "trail"}
       THEN Out(Fail(s), <<>>, Res("BadPeer"), <<>>)
  ELSE Out([s EXCEPT !.ph = "done"], <<>>, ResOpt("ret", m.x # ""), <<>>)

\* ------------------------------------------------------------ dispatch
Recv(c, s, m) ==
  CASE s.ph = "w2"   -> CRecvM2(c, s, m)
    [] s.ph = "w3"   -> CRecvM3(c, s, m)
    [] s.ph = "w1"   -> SRecvM1(c, s, m)
    [] s.ph = "w4"   -> SRecvM4(c, s, m)
    [] s.ph = "w9"   -> ARecv(c, s, m)
    [] s.ph = "open" -> DRecv(c, s, m)

Start(c, s) ==
  IF s.role = "s" THEN Out([s EXCEPT !.ph = "w1"], <<>>, Res("wait"), <<>>)
  ELSE IF c.kind = "a1" THEN AStart(c, s) ELSE CStart(c, s)

Waiting == {"w1", "w2", "w3", "w4", "w9"}
=============================================================================
