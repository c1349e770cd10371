-------------------------------- MODULE Pair --------------------------------
(***************************************************************************)
(* Client/server pairs (saltchannel/dev/client_server*.py): n client       *)
(* sessions, each with a connection and a server session of its own.       *)
(* The socket pair serves one connection at a time, the asyncio pair all   *)
(* of them at once.  The server session echoes.  A client runs a script:   *)
(*   e/E/z  write one small/large/empty message, then read the echo        *)
(*   b      write three messages in one call, then read the three echoes   *)
(*   q      write a message and leave without reading                      *)
(*   k      write a message that makes the server session raise, then read *)
(*   x      raise                                                          *)
(* TLC enumerates all schedules of small groups of clients (MC) and checks *)
(* Own, Serial, Outcome and Termination; scripts it prints are run on the  *)
(* real pairs and the recorded histories have to be behaviours (Trace).    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds, Groups      \* which pairs; the set of groups (sequences of scripts)

Msgs(op) == CASE op = "b" -> 3 [] op = "x" -> 0 [] OTHER -> 1
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE Msgs(s[k]) + Sum(s, k - 1)
Ends(op) == op \in {"x", "q", "k"}            \* the last thing such a script does
WellFormed(s) == \A k \in 1..Len(s) : Ends(s[k]) => k = Len(s)

VARIABLES kind, grp,
          cl,      \* per client: "idle", "run", "done", "failed"
          pos,     \* operations begun
          snt,     \* messages written
          up, dn,  \* on the wire: serial numbers of the client's messages
          got,     \* echoes read
          sv,      \* server session of this client: "none", "run", "end"
          ret      \* "no", "ret", "raised"
vars == <<kind, grp, cl, pos, snt, up, dn, got, sv, ret>>
C == 1..Len(grp)

Start(k, g) ==
  /\ kind = k /\ grp = g /\ ret = "no"
  /\ cl = [c \in 1..Len(g) |-> "idle"] /\ sv = [c \in 1..Len(g) |-> "none"]
  /\ pos = [c \in 1..Len(g) |-> 0] /\ snt = [c \in 1..Len(g) |-> 0] /\ got = [c \in 1..Len(g) |-> 0]
  /\ up = [c \in 1..Len(g) |-> <<>>] /\ dn = [c \in 1..Len(g) |-> <<>>]

Op(c) == IF pos[c] = 0 THEN "" ELSE grp[c][pos[c]]
Awaits(c) == pos[c] > 0 /\ Op(c) # "q" /\ got[c] < snt[c]
Ended(c) == cl[c] \in {"done", "failed"}

Begin(c) == /\ ret = "no" /\ cl[c] = "idle" /\ cl' = [cl EXCEPT ![c] = "run"]
            /\ UNCHANGED <<kind, grp, pos, snt, up, dn, got, sv, ret>>
\* one write call
Send(c) == /\ cl[c] = "run" /\ ~Awaits(c) /\ pos[c] < Len(grp[c]) /\ grp[c][pos[c] + 1] # "x"
           /\ (IF pos[c] > 0 THEN Op(c) # "q" ELSE TRUE)
           /\ pos' = [pos EXCEPT ![c] = @ + 1]
           /\ snt' = [snt EXCEPT ![c] = @ + Msgs(grp[c][pos[c] + 1])]
           /\ up' = [up EXCEPT ![c] = @ \o [k \in 1..Msgs(grp[c][pos[c] + 1]) |-> snt[c] + k]]
           /\ UNCHANGED <<kind, grp, cl, dn, got, sv, ret>>
Got(c) == /\ cl[c] = "run" /\ Awaits(c) /\ dn[c] # <<>>
          /\ got' = [got EXCEPT ![c] = Head(dn[c])] /\ dn' = [dn EXCEPT ![c] = Tail(@)]
          /\ UNCHANGED <<kind, grp, cl, pos, snt, up, sv, ret>>
\* the script is done, or raises, or its read fails because the server session went away
Leave(c, how) ==
  /\ cl[c] = "run"
  /\ \/ how = "done" /\ pos[c] = Len(grp[c]) /\ ~Awaits(c)
     \/ how = "failed" /\ pos[c] < Len(grp[c]) /\ grp[c][pos[c] + 1] = "x" /\ ~Awaits(c)
     \/ how = "failed" /\ pos[c] > 0 /\ Op(c) = "k" /\ Awaits(c) /\ dn[c] = <<>> /\ sv[c] = "end"
  /\ cl' = [cl EXCEPT ![c] = how]
  /\ UNCHANGED <<kind, grp, pos, snt, up, dn, got, sv, ret>>

Accept(c) == /\ cl[c] # "idle" /\ sv[c] = "none"
             /\ (kind = "mp" => \A d \in C : sv[d] # "run")
             /\ sv' = [sv EXCEPT ![c] = "run"]
             /\ UNCHANGED <<kind, grp, cl, pos, snt, up, dn, got, ret>>
Kills(c, k) == grp[c][Len(grp[c])] = "k" /\ k = Sum(grp[c], Len(grp[c]))
Echo(c) == /\ sv[c] = "run" /\ up[c] # <<>> /\ ~Kills(c, Head(up[c]))
           /\ up' = [up EXCEPT ![c] = Tail(@)] /\ dn' = [dn EXCEPT ![c] = Append(@, Head(up[c]))]
           /\ UNCHANGED <<kind, grp, cl, pos, snt, got, sv, ret>>
\* the server session ends because its client is gone (messages the client did not wait for may be lost) or by raising
SvEnd(c) == /\ sv[c] = "run"
            /\ \/ Ended(c) /\ (up[c] = <<>> \/ Op(c) = "q")
               \/ up[c] # <<>> /\ Kills(c, Head(up[c]))
            /\ sv' = [sv EXCEPT ![c] = "end"]
            /\ up' = [up EXCEPT ![c] = <<>>]
            /\ UNCHANGED <<kind, grp, cl, pos, snt, dn, got, ret>>
Return(how) ==
  /\ ret = "no" /\ \A c \in C : Ended(c)
  /\ how = (IF kind = "aio" /\ \E c \in C : cl[c] = "failed" THEN "raised" ELSE "ret")
  /\ ret' = how
  /\ UNCHANGED <<kind, grp, cl, pos, snt, up, dn, got, sv>>

Step(c) == Begin(c) \/ Send(c) \/ Got(c) \/ Leave(c, "done") \/ Leave(c, "failed") \/ Accept(c) \/ Echo(c) \/ SvEnd(c)
Next == (\E c \in C : Step(c)) \/ Return("ret") \/ Return("raised")
Init == \E k \in Kinds, g \in Groups : Start(k, g)
Fair == WF_vars(Next)
Spec == Init /\ [][Next]_vars /\ Fair

\* C23
Own == \A c \in C : got[c] <= snt[c] /\ snt[c] <= Sum(grp[c], Len(grp[c])) /\ (\A k \in 1..Len(dn[c]) : dn[c][k] = got[c] + k)
Serial == kind = "mp" => Cardinality({c \in C : sv[c] = "run"}) <= 1
Outcome == ret # "no" => \A c \in C : Ended(c) /\ (cl[c] = "done" => pos[c] = Len(grp[c]) /\ (Op(c) # "q" => got[c] = Sum(grp[c], Len(grp[c]))))
Termination == <>(ret # "no" /\ \A c \in C : sv[c] = "end")

\* ------------------------------------------------------------- groups
Ops == {"e", "E", "z", "b"}
Tails == {"x", "q", "k"}
S1 == {<<o>> : o \in Ops \cup Tails}
S2 == S1 \cup {<<a, b>> : a \in {"e", "b"}, b \in Ops \cup Tails}
S3 == S2 \cup {<<a, b, d>> : a \in {"e", "z"}, b \in {"E", "b"}, d \in {"e", "k", "x", "q"}}
Small == {<<a>> : a \in S2} \cup {<<a, b>> : a \in S1, b \in S1}
Three == {<<a, b, d>> : a \in {<<"e">>, <<"b">>}, b \in {<<"x">>, <<"k">>, <<"q">>}, d \in {<<"e">>, <<"x">>, <<"k">>}}
ASSUME \A s \in S3 : WellFormed(s)
Both == {"mp", "aio"}
Four == {<<a, b, d, f>> : a \in {<<"e">>, <<"k">>}, b \in {<<"x">>, <<"e", "b">>}, d \in {<<"q">>, <<"z">>}, f \in {<<"e">>, <<"E", "e">>}}
Deep == {<<a, b>> : a \in S3, b \in S2}
Fresh == \A c \in C : cl[c] = "idle" /\ sv[c] = "none"
Gen == IF Fresh THEN PrintT("OUT " \o ToJson([kind |-> kind, grp |-> grp])) ELSE TRUE
=============================================================================
