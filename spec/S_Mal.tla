-------------------------------- MODULE S_Mal -------------------------------
(***************************************************************************)
(* What the code may do with input that may be malformed (C24): every      *)
(* parser gives a value or raises an error of its class with a message     *)
(* that can be printed.                                                    *)
(***************************************************************************)
EXTENDS Tx, Obs

\* The class of the errors of a parser
ErrorOf(p) ==
  CASE p \in {"priv_bytes", "priv_hex", "priv_wif", "priv_new"} -> "PrivateKey.Error"
    [] p \in {"pub_bytes", "pub_hex", "pub_new", "get_pubkey", "get_pubkeys"} -> "PublicKey.Error"
    [] p \in {"addr_bytes", "addr_hex", "addr_string", "addr_new"} -> "Address.Error"
    [] p \in {"opcode_name", "opcode_new", "opcode_push"} -> "Opcode.Error"
    [] p = "instruction" -> "Instruction.Error"
    [] p = "tx_new" -> "Transaction.Error"
    [] OTHER -> "BitforgeError"

NetOf(ev) == NetNamed(ev.a.net)
HexThen(t, ok(_)) == LET d == ParseHex(t) IN IF d.ok THEN ok(d.v) ELSE "no"
YesNo(b) == IF b THEN "yes" ELSE "no"
TxReads(b) == LET p == ParseTx(b) IN IF ~p.ok THEN "no" ELSE IF ScriptsParse(p.v) THEN "yes" ELSE "open"
InReads(b) == LET p == ParseIn(b) IN IF ~p.ok THEN "no" ELSE IF ParseScript(p.v.script).ok THEN "yes" ELSE "open"
OutReads(b) == LET p == ParseOut(b) IN IF ~p.ok THEN "no" ELSE IF ParseScript(p.v.script).ok THEN "yes" ELSE "open"
PrivReads(b) == YesNo(Len(b) = 32 /\ ValidSecret(SInt(0, NatBE(b))))
PubReads(b) == YesNo(SecDecode(b).ok)
AddrReads(b) == YesNo(ParseAddr(b).ok)

\* Is the input well-formed? "open" where the specification leaves it to the code
Reads(p, ev) ==
  CASE p = "priv_bytes"  -> IF NetOf(ev).ok THEN PrivReads(ev.a.b) ELSE "no"
    [] p = "priv_hex"    -> IF NetOf(ev).ok THEN HexThen(ev.a.t, PrivReads) ELSE "no"
    [] p = "priv_wif"    -> YesNo(ParseWif(ev.a.t).ok)
    [] p = "priv_new"    -> YesNo(NetOf(ev).ok /\ ValidSecret(ev.a.n))
    [] p = "pub_bytes"   -> IF NetOf(ev).ok THEN PubReads(ev.a.b) ELSE "no"
    [] p = "pub_hex"     -> IF NetOf(ev).ok THEN HexThen(ev.a.t, PubReads) ELSE "no"
    [] p = "pub_new"     -> YesNo(NetOf(ev).ok /\ ev.a.x.neg = 0 /\ ev.a.y.neg = 0 /\ IsPoint(Secp, << ev.a.x.v, ev.a.y.v >>))
    [] p = "addr_bytes"  -> AddrReads(ev.a.b)
    [] p = "addr_hex"    -> HexThen(ev.a.t, AddrReads)
    [] p = "addr_string" -> YesNo(ParseAddrText(ev.a.t).ok)
    [] p = "addr_new"    -> YesNo(NetOf(ev).ok /\ Len(ev.a.b) = 20)
    [] p = "script_bytes" -> YesNo(ParseScript(ev.a.b).ok)
    [] p = "script_text" -> IF TextIsOpen(ev.a.t) THEN "open" ELSE YesNo(ParseText(ev.a.t).ok)
    [] p = "opcode_name" -> IF NumberNamed(ev.a.t).ok THEN "yes" ELSE "open"
    [] p = "opcode_new"  -> YesNo(ev.a.n.neg = 0 /\ BNLt(ev.a.n.v, BNOf(256)))
    [] p = "opcode_push" -> YesNo(ev.a.n.neg = 0 /\ ev.a.n.v # << >> /\ BNLt(ev.a.n.v, BNPow2(32)))
    [] p = "instruction" -> YesNo(ValidIns(Push(ev.a.op, ev.a.b)))
    [] p = "tx_bytes"    -> TxReads(ev.a.b)
    [] p = "tx_hex"      -> HexThen(ev.a.t, TxReads)
    [] p = "in_bytes"    -> InReads(ev.a.b)
    [] p = "in_hex"      -> HexThen(ev.a.t, InReads)
    [] p = "out_bytes"   -> OutReads(ev.a.b)
    [] p = "out_hex"     -> HexThen(ev.a.t, OutReads)
    [] p = "hex"         -> YesNo(ParseHex(ev.a.t).ok)
    [] p = "base58"      -> YesNo(B58CheckDecode(ev.a.t).ok)
    [] p = "tx_new"      -> YesNo(ev.a.nin > 0 /\ ev.a.nout > 0 /\ ev.a.lock.neg = 0 /\ Fits(ev.a.lock.v, 4) /\ ~ev.a.strange)
    [] p = "data_output" -> IF ev.a.b = << >> THEN "open" ELSE YesNo(Len(ev.a.b) <= 80)
    [] p = "get_pubkey"  -> PubReads(ev.a.b)
    [] p = "get_pubkeys" -> PubReads(ev.a.b)
    [] p = "get_script"  -> YesNo(ParseScript(ev.a.b).ok)
    [] p \in {"read", "read_varint"} -> "open"

Printable(m) ==
  /\ m.k = "text"
  /\ \E i \in 1..Len(m.v) : m.v[i] > 32
  /\ \A i \in 1..Len(m.v) : m.v[i] \notin 55296..57343

Parse(ev) ==
  LET p == ev.a.p
      want == Reads(p, ev)
  IN  IF IsErr(ev.r)
      THEN Clause("C24:" \o p \o " gives an answer in time", ~IsHang(ev.r))
           \cup (IF IsHang(ev.r) THEN {}
                 ELSE Clause("C24:" \o p \o " raises only errors of its class", ErrIs(ev.r, ErrorOf(p)) /\ ErrIs(ev.r, "BitforgeError"))
                      \cup Clause("C24:" \o p \o " raises errors that can be printed", Printable(ev.r.msg) /\ Printable(ev.r.rep))
                      \cup Clause("C24:" \o p \o " reads well-formed input", want # "yes"))
      ELSE Clause("C24:" \o p \o " gives a value of its kind", ev.r.k = "value")
           \cup Clause("C24:" \o p \o " refuses malformed input", want # "no")

Mal_Failing(st, ev) == Parse(ev)
=============================================================================
