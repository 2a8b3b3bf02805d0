------------------------------ MODULE M_Codec -------------------------------
(***************************************************************************)
(* Model for C06, C07, C08: every byte string over Alphabet of up to MaxLen*)
(* bytes, built byte by byte.  The round trips that the properties promise *)
(* are invariants of the specification itself; every string is emitted and *)
(* replayed on the real code.                                              *)
(***************************************************************************)
EXTENDS Codec, Json
CONSTANTS Alphabet, MaxLen
VARIABLE b
Init == b = << >>
Next == /\ Len(b) < MaxLen
        /\ \E x \in Alphabet : b' = Append(b, x)
Spec == Init /\ [][Next]_b

Base58RoundTrip ==
  LET t == B58CheckEncode(b) IN
  /\ B58CheckDecode(t) = Yes(b)
  \* one leading '1' per leading zero byte of the payload with its checksum
  /\ Leading(t, 49) = Leading(b \o Checksum(b), 0)
\* A changed final digit never passes
Base58Checked ==
  LET t == B58CheckEncode(b)
      t2 == Append(Front(t), IF Last(t) = 49 THEN 50 ELSE 49)
  IN  ~B58CheckDecode(t2).ok
IntRoundTrip ==
  LET n == NatBE(b) IN
  /\ NatBE(MinimalBE(n)) = n
  /\ \A k \in {4, 8} : Fits(n, k) => NatBE(FixedBE(n, k)) = n /\ NatLE(FixedLE(n, k)) = n
VarIntRoundTrip ==
  LET n == NatBE(b)  e == VarInt(n) IN
  /\ VarIntAvailable(e) /\ VarIntValue(e) = n /\ VarIntRest(e) = << >>
  /\ ~ \E k \in 0..(Len(e) - 1) : VarIntAvailable(SubSeq(e, 1, k))
NumRoundTrip ==
  LET n == SInt(0, NatBE(b)) IN
  /\ ScriptNumValue(ScriptNum(n)) = n
  /\ ScriptNumValue(ScriptNum(SNeg(n))) = SNeg(n)
  /\ IsMinimalNum(ScriptNum(n))
\* bitcoind's rule (CScriptNum) is the same as "shortest"
MinimalRule ==
  IsMinimalNum(b) <=>
    (b = << >> \/ Last(b) % 128 # 0 \/ (Len(b) > 1 /\ b[Len(b) - 1] >= 128))
Emit == PrintT("@" \o ToJson([op |-> "bytes", b |-> b]))
=============================================================================
