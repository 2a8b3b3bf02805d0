------------------------------- MODULE M_Mal --------------------------------
(***************************************************************************)
(* Model for C24: an encoding on its way from the writer to the reader is  *)
(* damaged by up to MaxDamage steps (cut short, a byte changed, a byte put *)
(* in, a byte lost).  Readers answer every damaged encoding; no proper     *)
(* prefix of a transaction, input or output is one, and nothing that       *)
(* follows it changes what is read; a damaged checksummed text is refused. *)
(* Every damaged encoding is replayed on the real code.                    *)
(***************************************************************************)
EXTENDS Tx, Json
CONSTANTS MaxDamage, Values
VARIABLES kind, enc, n, cut
vars == << kind, enc, n, cut >>

Txid == TLCEval([i \in 1..32 |-> i])
Hash == TLCEval([i \in 1..20 |-> 200 + i])
In1 == [txid |-> Txid, index |-> << 1 >>, script |-> << 2, 76, 77 >>, seq |-> << 255, 255, 255, 255 >>]
In2 == [txid |-> Txid, index |-> << >>, script |-> << >>, seq |-> << >>]
Out1 == [amount |-> << 7, 0 >>, script |-> << 106, 1, 255 >>]
Out2 == [amount |-> << 1 >>, script |-> << 81 >>]
Tx1 == [version |-> << 1 >>, lock |-> << >>, ins |-> << In2 >>, outs |-> << Out2 >>]
Tx2 == [version |-> << 2 >>, lock |-> << 9, 0 >>, ins |-> << In1, In2 >>, outs |-> << Out2, Out1 >>]
Script1 == ScriptBytes(<< Op(0), Push(2, << 76, 255 >>), Push(76, << 78 >>), Push(77, << 1, 2 >>), Push(78, << 3 >>), Op(255) >>)
Text1 == ScriptText(<< Op(118), Push(2, << 1, 2 >>), Push(76, << 9 >>) >>)
Compressed == SecEncode(SecpG, TRUE)
Wif1 == Wif(<< 5 >>, Livenet, TRUE)
Addr1 == AddrText([phash |-> Hash, net |-> Testnet, type |-> T_scripthash])

Start == [ tx |-> {TxBytes(Tx1), TxBytes(Tx2)}, in |-> {InBytes(In1)}, out |-> {OutBytes(Out1)}, script |-> {Script1},
           text |-> {Text1}, pub |-> {Compressed}, wif |-> {Wif1}, addr |-> {Addr1} ]
Kinds == DOMAIN Start
IsText(k) == k \in {"text", "wif", "addr"}
FewValues == {0, 1, 76, 253, 255}
ManyValues == {0, 1, 2, 32, 48, 75, 76, 77, 78, 106, 127, 128, 252, 253, 254, 255}

Without(b, i) == SubSeq(b, 1, i - 1) \o SubSeq(b, i + 1, Len(b))
Damage(b, V) ==
  { SubSeq(b, 1, i) : i \in 0..(Len(b) - 1) }
  \cup { [b EXCEPT ![i] = v] : i \in 1..Len(b), v \in V }
  \cup { SubSeq(b, 1, i) \o << v >> \o SubSeq(b, i + 1, Len(b)) : i \in 0..Len(b), v \in V }
  \cup { Without(b, i) : i \in 1..Len(b) }
Init == /\ kind \in Kinds /\ enc \in Start[kind] /\ n = 0 /\ cut = FALSE
Next == /\ n < MaxDamage /\ n' = n + 1 /\ UNCHANGED kind
        /\ enc' \in Damage(enc, Values) \ {enc}
        /\ cut' = (n = 0 /\ Len(enc') < Len(enc) /\ enc' = SubSeq(enc, 1, Len(enc')))
Spec == Init /\ [][Next]_vars

Ok(k, b) == CASE k = "tx" -> ParseTx(b).ok [] k = "in" -> ParseIn(b).ok [] k = "out" -> ParseOut(b).ok
              [] k = "script" -> ParseScript(b).ok [] k = "text" -> ParseText(b).ok [] k = "pub" -> SecDecode(b).ok
              [] k = "wif" -> ParseWif(b).ok [] k = "addr" -> ParseAddrText(b).ok
Intact == n = 0 => Ok(kind, enc)
Answers == Ok(kind, enc) \in BOOLEAN
NoPrefix == cut /\ kind \in {"tx", "in", "out", "pub"} => ~Ok(kind, enc)
Checksummed == n = 1 /\ kind \in {"wif", "addr"} => ~Ok(kind, enc)
\* What is read is what was written, up to longer ways of writing a count
Exact ==
  /\ kind = "tx" /\ ParseTx(enc).ok =>
       LET t == ParseTx(enc).v IN ValidTx(t) /\ ParseTx(TxBytes(t)) = Yes(t) /\ Len(TxBytes(t)) <= Len(enc)
  /\ kind = "script" /\ ParseScript(enc).ok => ScriptBytes(ParseScript(enc).v) = enc
Follows == kind = "tx" /\ ParseTx(enc).ok => ~ParseTx(enc \o << 0 >>).ok
Emit == PrintT("@" \o ToJson([kind |-> kind, e |-> enc]))
=============================================================================
