------------------------------ MODULE Examples ------------------------------
(***************************************************************************)
(* The example sessions of saltchannel/dev as runs of the SaltV2 endpoint  *)
(* operators: what each of them puts on the wire.  The expected messages   *)
(* are printed as terms and compared byte for byte (with the examples'     *)
(* fixed keys and messages) with what the real examples exchange.          *)
(* Messages "r1", "r2", "r3": 010505050505, 0104040404, 03030303.          *)
(***************************************************************************)
EXTENDS SaltV2, Json
VARIABLE done

Cfg(b2, b4, tm, kd) == [want |-> "none", b2 |-> b2, b4 |-> b4, ct |-> tm, st |-> tm, rej |-> <<"none", "none">>, chk |-> "null",
                        ident |-> "cS", sident |-> "sS", a2 |-> "echo", kind |-> kd, addr |-> "sS"]
\* a step: an endpoint starts, receives the next message of the other side, writes or reads from its queue
St(e) == [e |-> e, a |-> "start", ds |-> <<>>, last |-> FALSE]
Rx(e) == [e |-> e, a |-> "recv", ds |-> <<>>, last |-> FALSE]
Wr(e, ds, l) == [e |-> e, a |-> "write", ds |-> ds, last |-> l]
Pq(e) == [e |-> e, a |-> "pop", ds |-> <<>>, last |-> FALSE]

Other(e) == IF e = "c" THEN "s" ELSE "c"
RECURSIVE Flat(_)
Flat(ws) == IF ws = <<>> THEN <<>> ELSE Head(ws).ms \o Flat(Tail(ws))
\* st = [ep, wire (sent so far, per side), taken (received so far, per side), res]
RECURSIVE Go(_, _, _)
Go(c, st, steps) ==
  IF steps = <<>> THEN st ELSE
  LET x == Head(steps)
      s == st.ep[x.e]
      o == CASE x.a = "start" -> Start(c, s)
             [] x.a = "recv"  -> Recv(c, s, st.wire[Other(x.e)][st.taken[x.e] + 1])
             [] x.a = "write" -> DoWrite(c, s, x.ds, x.last, "")
             [] x.a = "pop"   -> PopQ(s)
  IN  Go(c, [ep |-> [st.ep EXCEPT ![x.e] = o.s], wire |-> [st.wire EXCEPT ![x.e] = @ \o Flat(o.w)],
             taken |-> [st.taken EXCEPT ![x.e] = @ + (IF x.a = "recv" THEN 1 ELSE 0)], res |-> Append(st.res, <<x.e, o.r.k, o.r.d>>)], Tail(steps))
St0 == [ep |-> [c |-> Endpoint("c", "cE"), s |-> Endpoint("s", "sE")], wire |-> [c |-> <<>>, s |-> <<>>], taken |-> [c |-> 0, s |-> 0], res |-> <<>>]

R1 == <<"r1", 1>>
R2 == <<"r2", 2>>
R3 == <<"r3", 3>>
Ex1 == Go(Cfg(TRUE, TRUE, FALSE, "hs"), St0,
          <<St("c"), St("s"), Rx("s"), Rx("c"), Rx("c"), Wr("c", <<R1>>, TRUE), Rx("s"), Rx("s"), Wr("s", <<R1>>, FALSE), Rx("c")>>)
Ex1a == Go(Cfg(FALSE, FALSE, FALSE, "hs"), St0,
          <<St("c"), St("s"), Rx("s"), Rx("c"), Rx("c"), Wr("c", <<R1>>, TRUE), Rx("s"), Rx("s"), Wr("s", <<R1>>, FALSE), Rx("c")>>)
Ex2 == Go(Cfg(FALSE, FALSE, FALSE, "a1"), St0, <<St("c"), St("s"), Rx("s"), Rx("c")>>)
Ex3 == Go(Cfg(FALSE, FALSE, TRUE, "hs"), St0,
          <<St("c"), St("s"), Rx("s"), Rx("c"), Rx("c"), Rx("s"), Wr("c", <<R1>>, FALSE), Rx("s"), Wr("s", <<R1>>, FALSE), Rx("c"),
            Wr("c", <<R2, R3>>, FALSE), Rx("s"), Pq("s"), Wr("s", <<R2, R3>>, TRUE), Rx("c"), Pq("c")>>)

Got(st, e) == SelectSeq(st.res, LAMBDA r : r[1] = e /\ r[2] = "data")
Ds(st, e) == [k \in 1..Len(Got(st, e)) |-> Got(st, e)[k][3]]
\* both sides end well: every message was received, the echoes are the requests
Fine(st) == /\ \A k \in 1..Len(st.res) : st.res[k][2] \in {"wait", "ret", "data"}
            /\ st.taken["c"] = Len(st.wire["s"]) /\ st.taken["s"] = Len(st.wire["c"])
            /\ Ds(st, "c") = Ds(st, "s")
ASSUME Fine(Ex1) /\ Fine(Ex1a) /\ Fine(Ex2) /\ Fine(Ex3)
ASSUME Ex1.ep["c"].peer = "sS" /\ Ex3.ep["s"].peer = "cS" /\ Ds(Ex3, "c") = <<R1, R2, R3>>

Show(n, st) == PrintT("OUT " \o ToJson([n |-> n, up |-> st.wire["c"], dn |-> st.wire["s"]]))
Init == done = FALSE /\ Show("1", Ex1) /\ Show("1a", Ex1a) /\ Show("2", Ex2) /\ Show("3", Ex3)
Next == UNCHANGED done
Spec == Init /\ [][Next]_done
=============================================================================
