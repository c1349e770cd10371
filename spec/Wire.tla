-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The byte format of Salt Channel v2 packets: Enc(kind, f) is the         *)
(* encoding of the field record f, Verdict(kind, b) says whether the byte  *)
(* string b is a packet of that kind ("ok"), is not ("bad"), or is one     *)
(* only if reserved bits and trailing bytes are ignored ("opt": accepting  *)
(* and refusing it are both correct), Fields(kind, b) are the field values.*)
(* Bytes are sequences over 0..255; a 32 bit time is <<low 16, high 16>>.  *)
(*                                                                         *)
(* Trace mode: encode/decode events and session inputs recorded from the   *)
(* code (harness/tasks_wire.py) are judged one by one.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Bitwise

CONSTANTS TraceFile
Traces == JsonDeserialize(TraceFile)

LE2(n) == << n % 256, n \div 256 >>
LE4(t) == LE2(t[1]) \o LE2(t[2])
U2(b, o) == b[o] + 256 * b[o + 1]
T4(b, o) == << U2(b, o), U2(b, o + 2) >>
Sub(b, o, n) == SubSeq(b, o, o + n - 1)
B2N(x) == IF x THEN 1 ELSE 0
SCv2 == << 83, 67, 118, 50 >>

RECURSIVE CatM(_)
CatM(ms) == IF ms = <<>> THEN <<>> ELSE LE2(Len(ms[1])) \o ms[1] \o CatM(Tail(ms))
RECURSIVE CatP(_)
CatP(ps) == IF ps = <<>> THEN <<>> ELSE ps[1][1] \o ps[1][2] \o CatP(Tail(ps))

Enc(k, f) ==
  CASE k = "M1"  -> SCv2 \o <<1, B2N(f.inc)>> \o LE4(f.time) \o f.key \o (IF f.inc THEN f.sk ELSE <<>>)
    [] k = "M2"  -> <<2, B2N(f.nss) + (IF f.nss \/ f.last THEN 128 ELSE 0)>> \o LE4(f.time) \o f.key
    [] k = "M3"  -> <<3, 0>> \o LE4(f.time) \o f.key \o f.sig
    [] k = "M4"  -> <<4, 0>> \o LE4(f.time) \o f.key \o f.sig
    [] k = "E"   -> <<6, IF f.last THEN 128 ELSE 0>> \o f.body
    [] k = "APP" -> <<5, 0>> \o LE4(f.time) \o f.data
    [] k = "MUL" -> <<11, 0>> \o LE4(f.time) \o LE2(Len(f.msgs)) \o CatM(f.msgs)
    [] k = "A1"  -> <<8, 0, f.at>> \o LE2(Len(f.addr)) \o f.addr
    [] k = "A2"  -> <<9, B2N(f.nss) + 128, Len(f.prots)>> \o CatP(f.prots)

\* ---------------------------------------------------------------- decoding
Fixed(b, ty, n, mask) ==      \* fixed size packet with type ty; mask = meaningful flag bits
  IF Len(b) < n \/ (IF Len(b) >= 1 THEN b[1] # ty ELSE TRUE) THEN "bad"
  ELSE IF Len(b) > n \/ (b[2] & (255 - mask)) # 0 THEN "opt" ELSE "ok"

\* walk through the messages of a multi packet: 0 if cut short, else the offset after the last
RECURSIVE Walk(_, _, _)
Walk(b, o, cnt) == IF cnt = 0 THEN o
  ELSE IF o + 1 > Len(b) THEN 0
  ELSE IF o + 1 + U2(b, o) > Len(b) THEN 0 ELSE Walk(b, o + 2 + U2(b, o), cnt - 1)
RECURSIVE Msgs(_, _, _)
Msgs(b, o, cnt) == IF cnt = 0 THEN <<>> ELSE << Sub(b, o + 2, U2(b, o)) >> \o Msgs(b, o + 2 + U2(b, o), cnt - 1)

PChar(c) == c \in (48..57) \cup (65..90) \cup (97..122) \cup {45, 46, 47, 95}

Verdict(k, b) ==
  CASE k = "M1" ->
         IF Len(b) < 42 THEN "bad"
         ELSE IF Sub(b, 1, 4) # SCv2 \/ b[5] # 1 THEN "bad"
         ELSE LET inc == b[6] % 2 = 1 n == IF inc THEN 74 ELSE 42 IN
              IF Len(b) < n THEN "bad" ELSE IF Len(b) > n \/ b[6] > 1 THEN "opt" ELSE "ok"
    [] k = "M2" ->
         LET v == Fixed(b, 2, 38, 129) IN
         IF v = "ok" /\ (b[2] % 2 = 1) /\ b[2] < 128 THEN "opt" ELSE v      \* no-such-server implies last
    [] k = "M3" -> Fixed(b, 3, 102, 0)
    [] k = "M4" -> Fixed(b, 4, 102, 0)
    [] k = "E" ->
         IF Len(b) < 18 THEN "bad" ELSE IF b[1] # 6 THEN "bad" ELSE IF b[2] \notin {0, 128} THEN "opt" ELSE "ok"
    [] k = "APP" ->
         IF Len(b) < 6 THEN "bad" ELSE IF b[1] # 5 THEN "bad" ELSE IF b[2] # 0 THEN "opt" ELSE "ok"
    [] k = "MUL" ->
         IF Len(b) < 8 THEN "bad" ELSE IF b[1] # 11 THEN "bad"
         ELSE IF U2(b, 7) = 0 THEN "bad"
         ELSE LET e == Walk(b, 9, U2(b, 7)) IN
              IF e = 0 THEN "bad" ELSE IF e # Len(b) + 1 \/ b[2] # 0 THEN "opt" ELSE "ok"
    [] k = "A1" ->
         IF Len(b) < 5 THEN "bad" ELSE IF b[1] # 8 THEN "bad"
         ELSE IF Len(b) # 5 + U2(b, 4) THEN "bad"
         ELSE IF ~((b[3] = 0 /\ U2(b, 4) = 0) \/ (b[3] = 1 /\ U2(b, 4) = 32)) THEN "bad"
         ELSE IF b[2] # 0 THEN "opt" ELSE "ok"
    [] k = "A2" ->
         IF Len(b) < 3 THEN "bad" ELSE IF b[1] # 9 THEN "bad"
         ELSE LET cnt == b[3] IN
              IF b[2] < 128 \/ cnt > 127 \/ (b[2] % 2 = 1 /\ cnt # 0) \/ Len(b) < 3 + 20 * cnt \/ Len(b) >= 3 + 20 * (cnt + 1) THEN "bad"
              ELSE IF \E i \in 4..(3 + 20 * cnt) : ~PChar(b[i]) THEN "bad"
              ELSE IF Len(b) # 3 + 20 * cnt \/ b[2] \notin {128, 129} THEN "opt" ELSE "ok"

Fields(k, b) ==
  CASE k = "M1"  -> [inc |-> b[6] % 2 = 1, time |-> T4(b, 7), key |-> Sub(b, 11, 32), sk |-> IF b[6] % 2 = 1 THEN Sub(b, 43, 32) ELSE <<>>]
    [] k = "M2"  -> [nss |-> b[2] % 2 = 1, last |-> b[2] >= 128, time |-> T4(b, 3), key |-> Sub(b, 7, 32)]
    [] k \in {"M3", "M4"} -> [time |-> T4(b, 3), key |-> Sub(b, 7, 32), sig |-> Sub(b, 39, 64)]
    [] k = "E"   -> [last |-> b[2] >= 128, body |-> SubSeq(b, 3, Len(b))]
    [] k = "APP" -> [time |-> T4(b, 3), data |-> SubSeq(b, 7, Len(b))]
    [] k = "MUL" -> [time |-> T4(b, 3), msgs |-> Msgs(b, 9, U2(b, 7))]
    [] k = "A1"  -> [at |-> b[3], addr |-> SubSeq(b, 6, Len(b))]
    [] k = "A2"  -> [nss |-> b[2] % 2 = 1, prots |-> [i \in 1..b[3] |-> <<Sub(b, 20 * i - 16, 10), Sub(b, 20 * i - 6, 10)>>]]

Kinds == {"M1", "M2", "M3", "M4", "E", "APP", "MUL", "A1", "A2"}

\* ---------------------------------------------------- judging recorded events
Fam == {"BadPeer", "NoSuch", "Time", "Com"}       \* the ComException family

\* encode: field record f -> bytes b, reported size n
OkEnc(v) == v.b = Enc(v.kind, v.f) /\ v.n = Len(v.b)
\* decode: bytes b -> r = "ok" (fields f, size n) or an exception
OkDec(v) ==
  LET d == Verdict(v.kind, v.b) IN
  CASE d = "bad" -> v.r = "BadPeer"
    [] d = "ok"  -> v.r = "ok" /\ v.f = Fields(v.kind, v.b) /\ v.n = Len(v.b)
    [] d = "opt" -> v.r = "BadPeer" \/ (v.r = "ok" /\ v.f = Fields(v.kind, v.b))

\* a session in state st was handed bytes b (for sealed states: the content of a properly sealed packet); r = what it did.
\* sg: the signature in b (if any) is genuine; own: the key b asks for (if any) is the server's; kok: the key in b is usable
OkSes(v) ==
  LET b == v.b
      D(k) == Verdict(k, b)
      First(k) == LET t == Fields(k, b).time IN t[2] = 0 /\ t[1] \in {0, 1}
      Must(x) == v.r = x
      Opt(d, x) == v.r = x \/ (d = "opt" /\ v.r = "BadPeer")
  IN
  CASE v.st = "w1" ->
        IF D("M1") # "bad"
        THEN IF ~First("M1") THEN v.r = "BadPeer"
             ELSE IF Fields("M1", b).inc /\ ~v.own THEN Opt(D("M1"), "NoSuch")
             ELSE IF ~v.kok THEN v.r = "BadPeer" ELSE Opt(D("M1"), "wait")
        ELSE IF D("A1") # "bad" THEN Opt(D("A1"), "ret") ELSE v.r = "BadPeer"
    [] v.st = "w2" ->
        IF D("M2") = "bad" THEN v.r = "BadPeer"
        ELSE IF ~First("M2") THEN v.r = "BadPeer"
        ELSE IF Fields("M2", b).nss THEN Opt(D("M2"), "NoSuch")
        ELSE IF ~v.kok THEN v.r = "BadPeer" ELSE Opt(D("M2"), "wait")
    [] v.st = "w9" -> IF D("A2") = "bad" THEN v.r = "BadPeer" ELSE Opt(D("A2"), "ret")
    [] v.st = "w3" -> IF D("M3") = "bad" THEN v.r = "BadPeer" ELSE IF ~v.sg THEN v.r = "BadPeer" ELSE Opt(D("M3"), "ret")
    [] v.st = "w4" -> IF D("M4") = "bad" THEN v.r = "BadPeer" ELSE IF ~v.sg THEN v.r = "BadPeer" ELSE Opt(D("M4"), "ret")
    [] v.st = "open" ->
        IF D("APP") # "bad" THEN Opt(D("APP"), "data") /\ (v.r = "data" => v.d = << Fields("APP", b).data >>)
        ELSE IF D("MUL") # "bad" THEN Opt(D("MUL"), "data") /\ (v.r = "data" => v.d = Fields("MUL", b).msgs)
        ELSE v.r = "BadPeer"
    \* raw (unsealed) bytes where a sealed packet is due: nothing opens
    [] v.st = "raw" -> v.r = "BadPeer"

Ok(v) == IF v.k = "enc" THEN OkEnc(v) ELSE IF v.k = "dec" THEN OkDec(v) ELSE OkSes(v)

VARIABLES tr, i
Init == tr \in 1..Len(Traces) /\ i = 0
\* every event is judged; a rejected one is reported and the rest still judged
Next == /\ i < Len(Traces[tr].ev) /\ i' = i + 1 /\ tr' = tr
        /\ (IF Ok(Traces[tr].ev[i + 1]) THEN TRUE ELSE PrintT("OUT bad " \o ToString(tr) \o " " \o ToString(i + 1)))
Spec == Init /\ [][Next]_<<tr, i>>
Progress == TRUE
Report == TRUE

\* ------------------------------------- the format itself: round trip on small field domains
K32 == [n \in 1..32 |-> n * 7 % 256]
S64 == [n \in 1..64 |-> n * 3 % 256]
Times == { <<0, 0>>, <<1, 0>>, <<65535, 65535>>, <<61453, 31661>>, <<0, 32768>> }
Sml == { <<>>, <<0>>, <<255, 1>> }
P10 == << 83, 67, 118, 50, 45, 46, 47, 95, 57, 90 >>
Dom(k) ==
  CASE k = "M1" -> {[inc |-> x, time |-> t, key |-> K32, sk |-> IF x THEN K32 ELSE <<>>] : x \in BOOLEAN, t \in Times}
    [] k = "M2" -> {[nss |-> x, last |-> x \/ y, time |-> t, key |-> K32] : x \in BOOLEAN, y \in BOOLEAN, t \in Times}
    [] k \in {"M3", "M4"} -> {[time |-> t, key |-> K32, sig |-> S64] : t \in Times}
    [] k = "E" -> {[last |-> x, body |-> K32] : x \in BOOLEAN}
    [] k = "APP" -> {[time |-> t, data |-> d] : t \in Times, d \in Sml}
    [] k = "MUL" -> {[time |-> t, msgs |-> m] : t \in Times, m \in {<<a>> : a \in Sml} \cup (Sml \X Sml) \cup (Sml \X Sml \X Sml)}
    [] k = "A1" -> {[at |-> 0, addr |-> <<>>], [at |-> 1, addr |-> K32]}
    [] k = "A2" -> {[nss |-> TRUE, prots |-> <<>>], [nss |-> FALSE, prots |-> <<>>], [nss |-> FALSE, prots |-> << <<P10, P10>>, <<P10, P10>> >>]}
ASSUME \A k \in Kinds : \A f \in Dom(k) : Verdict(k, Enc(k, f)) = "ok" /\ Fields(k, Enc(k, f)) = f
\* and no proper prefix of an encoding of these kinds decodes (App packets may end anywhere after their header)
ASSUME \A k \in Kinds \ {"APP", "E"} : \A f \in Dom(k) : \A n \in 0..(Len(Enc(k, f)) - 1) : Verdict(k, SubSeq(Enc(k, f), 1, n)) = "bad"
=============================================================================
