----------------------------- MODULE CryptoApi ------------------------------
(***************************************************************************)
(* The contract of the crypto back ends as an ideal functionality.  Byte   *)
(* strings are known by identity only (equal id = equal bytes); what is    *)
(* remembered is which key belongs to which seed, what was signed, sealed, *)
(* hashed and agreed.  A history of calls to any mix of back ends, wrapper *)
(* objects and the reference implementation (harness/tasks_lib.py) has to  *)
(* be a behaviour of this module:                                          *)
(*   every function is a function of its inputs, whichever back end runs;  *)
(*   different inputs never collide;                                       *)
(*   what was signed/sealed opens to the original, nothing else opens;     *)
(*   both ends of a key agreement get the same key;                        *)
(*   lengths are as documented, wrong lengths are refused.                 *)
(* Event: op, lib, inp (ids), il (lengths), r ("ok" or exception class),   *)
(* out (ids), ol (lengths), tail (id of the message part of a signed msg). *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS TraceFile
Traces == JsonDeserialize(TraceFile)

VARIABLES tr, i, sigk, boxk, sgn, box, dh, hsh, rnd, fdh
vars == <<tr, i, sigk, boxk, sgn, box, dh, hsh, rnd, fdh>>
facts == <<sigk, boxk, sgn, box, dh, hsh, rnd, fdh>>

Init == /\ tr \in 1..Len(Traces) /\ i = 0
        /\ sigk = {}   \* <<seed, pk, sk>>
        /\ boxk = {}   \* <<sk, pk>>
        /\ sgn = {}    \* <<pk, m, signed m>>
        /\ box = {}    \* <<key, nonce, m, sealed m>>
        /\ dh = {}     \* <<the two secret keys, shared key>>
        /\ hsh = {}    \* <<m, h>>
        /\ rnd = {}
        /\ fdh = {}    \* <<secret key, any public key, shared key>>

Refused(v, x) == v.r = x /\ UNCHANGED facts

SigKeys(v) ==
    /\ v.op = "sigkp"
    /\ IF v.il[1] # 32 THEN Refused(v, "Value")
       ELSE /\ v.r = "ok" /\ v.ol = <<32, 64>>
            /\ \A f \in sigk : (f[1] = v.inp[1]) = (f[2] = v.out[1]) /\ (f[1] = v.inp[1]) = (f[3] = v.out[2])
            /\ sigk' = sigk \cup {<<v.inp[1], v.out[1], v.out[2]>>}
            /\ UNCHANGED <<boxk, sgn, box, dh, hsh, rnd, fdh>>
\* fresh keys: never seen before; the seed of a signing key is the first half of its secret key
NewSig(v) ==
    /\ v.op = "newsig" /\ v.r = "ok" /\ v.ol = <<32, 64>>
    /\ \A f \in sigk : f[1] # v.tail /\ f[2] # v.out[1] /\ f[3] # v.out[2]
    /\ v.tail \notin rnd
    /\ sigk' = sigk \cup {<<v.tail, v.out[1], v.out[2]>>}
    /\ UNCHANGED <<boxk, sgn, box, dh, hsh, rnd, fdh>>
BoxKeys(v) ==
    /\ v.op = "boxkp"
    /\ IF v.il[1] # 32 THEN Refused(v, "Value")
       ELSE /\ v.r = "ok" /\ v.ol = <<32, 32>> /\ v.out[2] = v.inp[1]
            /\ \A f \in boxk : (f[1] = v.inp[1]) = (f[2] = v.out[1])
            /\ boxk' = boxk \cup {<<v.inp[1], v.out[1]>>}
            /\ UNCHANGED <<sigk, sgn, box, dh, hsh, rnd, fdh>>
NewBox(v) ==
    /\ v.op = "newbox" /\ v.r = "ok" /\ v.ol = <<32, 32>>
    /\ \A f \in boxk : f[1] # v.out[2] /\ f[2] # v.out[1]
    /\ v.out[2] \notin rnd
    /\ boxk' = boxk \cup {<<v.out[2], v.out[1]>>}
    /\ UNCHANGED <<sigk, sgn, box, dh, hsh, rnd, fdh>>
Sign(v) ==
    /\ v.op = "sign" /\ v.r = "ok" /\ v.ol[1] = v.il[1] + 64 /\ v.tail = v.inp[1]
    /\ \E f \in sigk : /\ f[3] = v.inp[2]
                       /\ \A g \in sgn : (g[1] = f[2] /\ g[2] = v.inp[1]) = (g[3] = v.out[1])
                       /\ sgn' = sgn \cup {<<f[2], v.inp[1], v.out[1]>>}
    /\ UNCHANGED <<sigk, boxk, box, dh, hsh, rnd, fdh>>
SignOpen(v) ==
    /\ v.op = "sopen"
    /\ IF \E g \in sgn : g[1] = v.inp[2] /\ g[3] = v.inp[1]
       THEN v.r = "ok" /\ \E g \in sgn : g[1] = v.inp[2] /\ g[3] = v.inp[1] /\ v.out = <<g[2]>>
       ELSE v.r = "BadSig"
    /\ UNCHANGED facts
Agree(v) ==
    /\ v.op = "agree"
    /\ IF v.il # <<32, 32>> THEN Refused(v, "Value")
       ELSE IF v.weak THEN Refused(v, "BadPeer")
       ELSE /\ v.r = "ok" /\ v.ol = <<32>>
            /\ \E f \in boxk : \E p \in {{f[1], v.inp[1]}} :
                  /\ f[2] = v.inp[2]
                  /\ \A d \in dh : (d[1] = p) = (d[2] = v.out[1])
                  /\ dh' = dh \cup {<<p, v.out[1]>>}
            /\ UNCHANGED <<sigk, boxk, sgn, box, hsh, rnd, fdh>>
\* a public key nobody here made (any 32 bytes but the few of low order): still one shared key per pair, whichever back end
\* runs.  Different keys may agree by design (unused bits of either key).
Foreign(v) ==
    /\ v.op = "foreign" /\ v.il = <<32, 32>> /\ v.r = "ok" /\ v.ol = <<32>>
    /\ \A d \in fdh : d[1] = v.inp[1] /\ d[2] = v.inp[2] => d[3] = v.out[1]
    /\ fdh' = fdh \cup {<<v.inp[1], v.inp[2], v.out[1]>>}
    /\ UNCHANGED <<sigk, boxk, sgn, box, dh, hsh, rnd>>
Seal(v) ==
    /\ v.op = "seal" /\ v.r = "ok" /\ v.ol[1] = v.il[1] + 16
    /\ \A b \in box : (b[1] = v.inp[3] /\ b[2] = v.inp[2] /\ b[3] = v.inp[1]) = (b[4] = v.out[1])
    /\ box' = box \cup {<<v.inp[3], v.inp[2], v.inp[1], v.out[1]>>}
    /\ UNCHANGED <<sigk, boxk, sgn, dh, hsh, rnd, fdh>>
Open(v) ==
    /\ v.op = "open"
    /\ IF \E b \in box : b[4] = v.inp[1] /\ b[2] = v.inp[2] /\ b[1] = v.inp[3]
       THEN v.r = "ok" /\ \E b \in box : b[4] = v.inp[1] /\ b[2] = v.inp[2] /\ b[1] = v.inp[3] /\ v.out = <<b[3]>>
       ELSE v.r = "BadEnc"
    /\ UNCHANGED facts
Hash(v) ==
    /\ v.op = "hash" /\ v.r = "ok" /\ v.ol = <<64>>
    /\ \A h \in hsh : (h[1] = v.inp[1]) = (h[2] = v.out[1])
    /\ hsh' = hsh \cup {<<v.inp[1], v.out[1]>>}
    /\ UNCHANGED <<sigk, boxk, sgn, box, dh, rnd, fdh>>
\* il[1]: number of bytes asked for; strings of 16 bytes and more are never seen twice, whole or in part (part: non-overlapping
\* pieces of 32 bytes)
Random(v) ==
    /\ v.op = "rand" /\ v.r = "ok" /\ v.ol = <<v.il[1]>>
    /\ IF v.il[1] < 16 THEN UNCHANGED rnd
       ELSE /\ v.out[1] \notin rnd
            /\ \A k \in 1..Len(v.part) : v.part[k] \notin rnd /\ \A l \in 1..(k - 1) : v.part[l] # v.part[k]
            /\ rnd' = rnd \cup {v.out[1]} \cup {v.part[k] : k \in 1..Len(v.part)}
    /\ UNCHANGED <<sigk, boxk, sgn, box, dh, hsh, fdh>>

Next == /\ i < Len(Traces[tr].ev) /\ i' = i + 1 /\ tr' = tr
        /\ \E v \in {Traces[tr].ev[i + 1]} :
             \/ SigKeys(v) \/ NewSig(v) \/ BoxKeys(v) \/ NewBox(v) \/ Sign(v) \/ SignOpen(v)
             \/ Agree(v) \/ Foreign(v) \/ Seal(v) \/ Open(v) \/ Hash(v) \/ Random(v)
Spec == Init /\ [][Next]_vars

ASSUME \A t \in 1..Len(Traces) : TLCSet(100 + t, 0)
Progress == IF TLCGet(100 + tr) < i THEN TLCSet(100 + tr, i) ELSE TRUE
Report == \A t \in 1..Len(Traces) : PrintT("OUT " \o ToString(t) \o " " \o ToString(TLCGet(100 + t)) \o " " \o ToString(Len(Traces[t].ev)))
=============================================================================
