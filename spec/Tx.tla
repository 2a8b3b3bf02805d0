--------------------------------- MODULE Tx ---------------------------------
(***************************************************************************)
(* Transactions on the wire, signature hashes, signatures.                 *)
(*   input  [txid |-> 32 bytes as written in the id, index, seq |-> BigNat,*)
(*           script |-> bytes]                                             *)
(*   output [amount |-> BigNat, script |-> bytes]                          *)
(*   transaction [version, lock |-> BigNat, ins, outs |-> sequences]       *)
(***************************************************************************)
EXTENDS Script

\* Concatenation of a sequence of sequences
RECURSIVE Cat_(_, _, _)
Cat_(s, lo, hi) ==
  IF lo > hi THEN << >>
  ELSE IF lo = hi THEN s[lo]
  ELSE LET m == (lo + hi) \div 2 IN Cat_(s, lo, m) \o Cat_(s, m + 1, hi)
CatMap(f(_), s) == LET parts == TLCEval([j \in 1..Len(s) |-> f(s[j])]) IN Cat_(parts, 1, Len(parts))

WithLength(b) == VarIntOf(Len(b)) \o b
InBytes(x)  == Rev(x.txid) \o FixedLE(x.index, 4) \o WithLength(x.script) \o FixedLE(x.seq, 4)
OutBytes(x) == FixedLE(x.amount, 8) \o WithLength(x.script)
TxBytes(t) ==
  FixedLE(t.version, 4) \o VarIntOf(Len(t.ins)) \o CatMap(InBytes, t.ins)
  \o VarIntOf(Len(t.outs)) \o CatMap(OutBytes, t.outs) \o FixedLE(t.lock, 4)
TxId(t) == HexText(Rev(Hash256(TxBytes(t))))

ValidIn(x)  == Len(x.txid) = 32 /\ Fits(x.index, 4) /\ Fits(x.seq, 4)
ValidOut(x) == Fits(x.amount, 8)
ValidTx(t) == /\ Fits(t.version, 4) /\ Fits(t.lock, 4) /\ t.ins # << >> /\ t.outs # << >>
              /\ \A i \in 1..Len(t.ins) : ValidIn(t.ins[i])
              /\ \A i \in 1..Len(t.outs) : ValidOut(t.outs[i])

(* ------------------------------- reading -------------------------------- *)
\* Readers take the bytes and a position and give [ok, v, at]
Got(v, at) == [ok |-> TRUE, v |-> v, at |-> at]
Short == [ok |-> FALSE, v |-> << >>, at |-> 0]
Take(b, at, n) == IF at + n - 1 > Len(b) THEN Short ELSE Got(SubSeq(b, at, at + n - 1), at + n)
\* A length: fails when it cannot be the size of anything that is left
ReadVarInt(b, at) ==
  IF at > Len(b) THEN Short
  ELSE LET w == VarIntWidth(b[at]) IN
       IF at + w > Len(b) THEN Short
       ELSE Got(IF w = 0 THEN BNOf(b[at]) ELSE NatLE(SubSeq(b, at + 1, at + w)), at + w + 1)
TakeVar(b, at) ==
  LET n == ReadVarInt(b, at) IN
  IF ~n.ok \/ BNLt(BNOf(Len(b)), n.v) THEN Short ELSE Take(b, n.at, BNInt(n.v))

ReadIn(b, at) ==
  LET txid == Take(b, at, 32) IN
  IF ~txid.ok THEN Short ELSE
  LET index == Take(b, txid.at, 4) IN
  IF ~index.ok THEN Short ELSE
  LET script == TakeVar(b, index.at) IN
  IF ~script.ok THEN Short ELSE
  LET seq == Take(b, script.at, 4) IN
  IF ~seq.ok THEN Short ELSE
  Got([txid |-> Rev(txid.v), index |-> NatLE(index.v), script |-> script.v, seq |-> NatLE(seq.v)], seq.at)
ReadOut(b, at) ==
  LET amount == Take(b, at, 8) IN
  IF ~amount.ok THEN Short ELSE
  LET script == TakeVar(b, amount.at) IN
  IF ~script.ok THEN Short ELSE
  Got([amount |-> NatLE(amount.v), script |-> script.v], script.at)

RECURSIVE ReadMany_(_, _, _, _, _)
ReadMany_(what, b, at, n, acc) ==
  IF n = 0 THEN Got(acc, at)
  ELSE LET x == TLCEval(IF what = "in" THEN ReadIn(b, at) ELSE ReadOut(b, at)) IN
       IF ~x.ok THEN Short ELSE ReadMany_(what, b, x.at, n - 1, TLCEval(Append(acc, x.v)))
ReadCounted(what, b, at) ==
  LET n == ReadVarInt(b, at) IN
  IF ~n.ok \/ BNLt(BNOf(Len(b)), n.v) THEN Short ELSE ReadMany_(what, b, n.at, BNInt(n.v), << >>)

\* Nothing may follow the transaction, the input or the output
Whole(b, p) == IF p.ok /\ p.at = Len(b) + 1 THEN p ELSE Short
ParseTx(b) ==
  LET version == Take(b, 1, 4) IN
  IF ~version.ok THEN No ELSE
  LET ins == ReadCounted("in", b, version.at) IN
  IF ~ins.ok THEN No ELSE
  LET outs == ReadCounted("out", b, ins.at) IN
  IF ~outs.ok THEN No ELSE
  LET lock == Take(b, outs.at, 4) IN
  IF ~Whole(b, lock).ok \/ ins.v = << >> \/ outs.v = << >> THEN No ELSE
  Yes([version |-> NatLE(version.v), ins |-> ins.v, outs |-> outs.v, lock |-> NatLE(lock.v)])
ParseIn(b) == Whole(b, ReadIn(b, 1))
ParseOut(b) == Whole(b, ReadOut(b, 1))
ScriptsParse(t) == /\ \A i \in 1..Len(t.ins) : ParseScript(t.ins[i].script).ok
                   /\ \A i \in 1..Len(t.outs) : ParseScript(t.outs[i].script).ok

(* ---------------------------- signature hashes -------------------------- *)
SIGHASH_ALL == 1  SIGHASH_NONE == 2  SIGHASH_SINGLE == 3
Blank(x) == [x EXCEPT !.script = << >>]
WithScript(t, i, script) == [t EXCEPT !.ins[i].script = script]
\* The hash that the signature of input i (from 1) covers, when the script being satisfied is
\* code (bytes), for the hash type (0..255)
SigHash(t, i, code, type) ==
  LET base == type % 32
      anyone == type >= 128
      ins == [j \in 1..Len(t.ins) |->
                IF j = i THEN [t.ins[j] EXCEPT !.script = code]
                ELSE LET x == Blank(t.ins[j])
                     IN  IF base \in {SIGHASH_NONE, SIGHASH_SINGLE} THEN [x EXCEPT !.seq = << >>] ELSE x]
      outs == CASE base = SIGHASH_NONE -> << >>
                [] base = SIGHASH_SINGLE ->
                     [j \in 1..i |-> IF j = i THEN t.outs[j] ELSE [amount |-> Times(255, 8), script |-> << >>]]
                [] OTHER -> t.outs
      t2 == [t EXCEPT !.ins = IF anyone THEN << ins[i] >> ELSE ins, !.outs = outs]
  IN  IF i > Len(t.ins) \/ (base = SIGHASH_SINGLE /\ i > Len(t.outs))
      THEN << 1 >> \o Times(0, 31)
      ELSE Hash256(TxBytes(t2) \o << type, 0, 0, 0 >>)

(* ------------------------------- signatures ----------------------------- *)
DerInt(n) == LET v == MinimalBE(n)
                 w == IF v[1] >= 128 THEN << 0 >> \o v ELSE v
             IN  << 2, Len(w) >> \o w
DerSig(r, s) == LET body == DerInt(r) \o DerInt(s) IN << 48, Len(body) >> \o body
\* Strict DER (BIP66): the one encoding of a pair of natural numbers, of at most 72 bytes
ParseDer(b) ==
  IF Len(b) \notin 8..72 THEN No
  ELSE LET lr == b[4] IN
       IF 6 + lr > Len(b) THEN No
       ELSE LET r == NatBE(SubSeq(b, 5, 4 + lr))
                s == NatBE(SubSeq(b, 7 + lr, Len(b)))
            IN  IF Len(DerInt(r)) + Len(DerInt(s)) + 2 = Len(b) /\ DerSig(r, s) = b THEN Yes([r |-> r, s |-> s]) ELSE No
\* With the hash type byte, as in a transaction
StrictSig(b) == Len(b) > 0 /\ ParseDer(Front(b)).ok
\* The pair of numbers a reader that is not strict might find: any lengths, any padding, anything after
LooseDer(b) ==
  IF Len(b) < 6 \/ b[1] # 48 THEN No
  ELSE LET at == IF b[2] < 128 THEN 3 ELSE 3 + (b[2] - 128) IN
       IF at + 1 > Len(b) \/ b[at] # 2 THEN No
       ELSE LET lr == b[at + 1] IN
            IF at + 3 + lr > Len(b) THEN No
            ELSE LET ls == b[at + 3 + lr]
                     r == NatBE(SubSeq(b, at + 2, at + 1 + lr))
                     s == NatBE(SubSeq(b, at + 4 + lr, Min2(Len(b), at + 3 + lr + ls)))
                 IN  Yes([r |-> r, s |-> s])

\* sig: DER and hash type; pub: SEC bytes; hash: 32 bytes
SigValidFor(der, pub, hash) ==
  LET d == ParseDer(der)  k == SecDecode(pub)
  IN  d.ok /\ k.ok /\ EcdsaValid(Secp, k.v.P, NatBE(hash), d.v.r, d.v.s)
LowS(der) == LET d == ParseDer(der) IN d.ok /\ BNLe(d.v.s, SecpHalfN)

\* The multisig check: signatures and keys are matched in order. ok[j][k]: signature j is one of key k
RECURSIVE Match_(_, _, _, _, _)
Match_(ok, j, k, m, n) ==
  IF j > m THEN TRUE
  ELSE IF m - j > n - k THEN FALSE
  ELSE IF ok[j][k] THEN Match_(ok, j + 1, k + 1, m, n)
  ELSE Match_(ok, j, k + 1, m, n)
MatchInOrder(sigs, pubs, Valid(_, _)) ==
  Match_([j \in 1..Len(sigs) |-> [k \in 1..Len(pubs) |-> Valid(sigs[j], pubs[k])]], 1, 1, Len(sigs), Len(pubs))
=============================================================================
