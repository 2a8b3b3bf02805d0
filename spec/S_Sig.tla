------------------------------- MODULE S_Sig --------------------------------
(***************************************************************************)
(* What the code may do: signatures (C18).                                 *)
(***************************************************************************)
EXTENDS Tx, Obs

\* r: the signature of the 32-byte digest a.d by the key with secret a.n; back: what verify says about it
SigSign(ev) ==
  LET pub == SecEncode(PubPoint(ev.a.n.v), TRUE)
      isSig == ev.r.k = "bytes"
  IN  Clause("C18:sign gives a strict DER signature", isSig /\ ParseDer(ev.r.v).ok)
      \cup Clause("C18:sign gives a signature with low s", isSig /\ LowS(ev.r.v))
      \cup Clause("C18:sign gives a valid signature", isSig /\ SigValidFor(ev.r.v, pub, ev.a.d))
      \cup Clause("C18:verify accepts what sign made", ev.back = OBool(TRUE))
      \cup Clause("C18:a signature with hash type passes the validator", ev.fmt = OBool(TRUE))

\* Strictly encoded signatures are accepted exactly when valid. Of the others only those that some
\* reader could take for a valid one are left open; all the rest must not be accepted.
SigVerify(ev) ==
  LET Q == PubPoint(ev.a.n.v)
      e == NatBE(ev.a.d)
      d == ParseDer(ev.a.b)
      l == LooseDer(ev.a.b)
      good(x) == x.ok /\ EcdsaValid(Secp, Q, e, x.v.r, x.v.s)
  IN  IF d.ok
      THEN IF good(d) THEN Clause("C18:verify accepts a valid signature", ev.r = OBool(TRUE))
           ELSE Clause("C18:verify accepts only valid signatures", ev.r # OBool(TRUE) /\ ~IsHang(ev.r))
      ELSE IF good(l) THEN {}
      ELSE Clause("C18:verify accepts only valid signatures", ev.r # OBool(TRUE) /\ ~IsHang(ev.r))

SigFormat(ev) ==
  Clause("C18:validate_signature answers yes exactly for strict DER", ev.r = OBool(StrictSig(ev.a.b)))

\* ALL, NONE, SINGLE, ANYONECANPAY
SigTypes(ev) ==
  Clause("C18:the hash types", ev.r = OList(<< ONat(<< 1 >>), ONat(<< 2 >>), ONat(<< 3 >>), ONat(<< 128 >>) >>))

\* Many signatures by several keys over several digests, by one process and by others: a nonce
\* used for two of them gives the secrets away (M_Ecdsa!NonceGivesSecretAway), and so do nonces
\* some bits of which are always the same. A signature does not tell a nonce from its opposite:
\* the smaller one is looked at.
NonceOf(x, sig) ==
  LET k == EcdsaNonce(Secp, x.n.v, NatBE(x.d), sig.r, sig.s)
      m == BNSub(SecpN, k)
  IN  BNFixed(IF BNLt(k, m) THEN k ELSE m, 32)
SigNonces(ev) ==
  LET X == ev.a.xs
      n == Len(X)
      ok == /\ ev.r.k = "list" /\ Len(ev.r.items) = n
            /\ (\A i \in 1..n : ev.r.items[i].k = "bytes" /\ ParseDer(ev.r.items[i].v).ok)
      S == TLCEval([i \in 1..n |-> ParseDer(ev.r.items[i].v).v])
      K == TLCEval([i \in 1..n |-> NonceOf(X[i], S[i])])
      bit(b, j) == (b[1 + j \div 8] \div (2 ^ (7 - (j % 8)))) % 2
  IN  IF ~ok THEN {"C18:sign gives a strict DER signature"}
      ELSE Clause("C18:no nonce is used for two signatures",
             \A i, j \in 1..n : (i < j /\ (X[i].n # X[j].n \/ X[i].d # X[j].d)) => K[i] # K[j])
           \cup Clause("C18:nonces are drawn from the whole range",
             \A j \in 1..255 : { bit(K[i], j) : i \in 1..n } = {0, 1})

Sig_Failing(st, ev) ==
  CASE ev.op = "nonces" -> SigNonces(ev)
    [] ev.op = "types" -> SigTypes(ev)
    [] ev.op = "sign"   -> SigSign(ev)
    [] ev.op = "verify" -> SigVerify(ev)
    [] ev.op = "format" -> SigFormat(ev)
=============================================================================
