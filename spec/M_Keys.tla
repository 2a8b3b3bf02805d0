------------------------------- MODULE M_Keys -------------------------------
(***************************************************************************)
(* Model for C01, C02, C05: payloads put together from a version byte, a   *)
(* body and a suffix, as texts of base58check.  Whatever is read as a      *)
(* private key or as an address is the encoding of what was read (so       *)
(* reading and writing are inverse), no text is both, and the version      *)
(* bytes decide the network.  Every text is emitted and read by the real   *)
(* code.                                                                   *)
(***************************************************************************)
EXTENDS Keys, Json
CONSTANTS Prefixes
VARIABLES stage, payload
vars == << stage, payload >>

Secret(n) == FixedBE(n, 32)
Bodies == { Secret(<< >>), Secret(<< 1 >>), Secret(BNSub(SecpN, << 1 >>)), Secret(SecpN),
            Secret(BNAdd(SecpN, << 1 >>)), Times(255, 32), Times(1, 31), Times(1, 33),
            Times(0, 20), Times(9, 19), Times(255, 20), Times(9, 21), << >> }
Suffixes == { << >>, << 0 >>, << 1 >>, << 2 >>, << 1, 1 >>, << 129 >> }

Init == stage = "prefix" /\ payload = << >>
Next == \/ /\ stage = "prefix"
           /\ \E x \in Prefixes : payload' = << x >>
           /\ stage' = "body"
        \/ /\ stage = "body"
           /\ \E x \in Bodies : payload' = payload \o x
           /\ stage' = "suffix"
        \/ /\ stage = "suffix"
           /\ \E x \in Suffixes : payload' = payload \o x
           /\ stage' = "done"
Spec == Init /\ [][Next]_vars

Text == B58CheckEncode(payload)
WifExact ==
  stage # "done" \/
  LET w == ParseWif(Text) IN
    w.ok => /\ Wif(w.v.secret, w.v.net, w.v.compressed) = Text
            /\ ValidSecret(SInt(0, w.v.secret))
            /\ w.v.net.wif = payload[1]
AddrExact ==
  stage # "done" \/
  LET a == ParseAddrText(Text) IN
    a.ok => AddrText(a.v) = Text /\ Version(a.v.net, a.v.type) = payload[1] /\ Len(a.v.phash) = 20
NeverBoth == stage # "done" \/ ~(ParseWif(Text).ok /\ ParseAddrText(Text).ok)
\* The four version bytes of addresses and the two prefixes of private keys are distinct
VersionsDistinct ==
  LET vs == { << n, k >> : n \in Networks, k \in 1..3 }
      byte(x) == CASE x[2] = 1 -> x[1].pubkeyhash [] x[2] = 2 -> x[1].scripthash [] OTHER -> x[1].wif
  IN  \A x, y \in vs : x # y => byte(x) # byte(y)
Emit == stage = "done" => PrintT("@" \o ToJson([op |-> "payload", t |-> Text]))
=============================================================================
