------------------------------ MODULE S_Codec -------------------------------
(***************************************************************************)
(* What the code may do: encodings (C06, C07, C08).                        *)
(* The state st is the content of the Buffer of the session.               *)
(***************************************************************************)
EXTENDS Codec, Obs

\* Properties: C06
EncBase58(ev) == Clause("C06:encode_base58h", ev.r = OText(B58CheckEncode(ev.a.b)))
DecBase58(ev) ==
  LET d == B58CheckDecode(ev.a.t)
  IN  Clause("C06:decode_base58h",
        IF d.ok THEN ev.r = OBytes(d.v)
        ELSE ErrIs(ev.r, "encoding.InvalidBase58h"))

\* Properties: C07
EncInt(ev) ==
  LET n == ev.a.n
      fits == n.neg = 0 /\ (ev.a.len < 0 \/ Fits(n.v, ev.a.len))
      be == IF ev.a.len < 0 THEN MinimalBE(n.v) ELSE FixedBE(n.v, ev.a.len)
  IN  Clause("C07:encode_int",
        IF fits THEN ev.r = OBytes(IF ev.a.be THEN be ELSE Rev(be)) ELSE Refused(ev.r))
DecInt(ev) ==
  Clause("C07:decode_int", ev.r = ONat(IF ev.a.be THEN NatBE(ev.a.b) ELSE NatLE(ev.a.b)))
EncVarInt(ev) ==
  Clause("C07:encode_varint",
    IF ev.a.n.neg = 0 /\ VarIntFits(ev.a.n.v) THEN ev.r = OBytes(VarInt(ev.a.n.v)) ELSE Refused(ev.r))

\* The Buffer: ev.r is the result of the call, ev.after the content afterwards
BufWrite(st, ev) ==
  Clause("C07:Buffer.write", ev.r = ONone /\ ev.after = OBytes(st \o ev.a.b))
BufRead(st, ev) ==
  IF ev.a.n <= Len(st)
  THEN Clause("C07:Buffer.read", /\ ev.r = OBytes(SubSeq(st, 1, ev.a.n))
                                 /\ ev.after = OBytes(SubSeq(st, ev.a.n + 1, Len(st))))
  ELSE Clause("C07:Buffer.read past the end",
              ErrIs(ev.r, "Buffer.InsufficientData") /\ ev.after = OBytes(st))
\* A varint that is cut short: refused; the marker byte may have been consumed
BufVarInt(st, ev) ==
  IF VarIntAvailable(st)
  THEN Clause("C07:Buffer.read_varint", /\ ev.r = ONat(VarIntValue(st))
                                        /\ ev.after = OBytes(VarIntRest(st)))
  ELSE Clause("C07:Buffer.read_varint past the end",
              /\ ErrIs(ev.r, "Buffer.InsufficientData")
              /\ \/ ev.after = OBytes(st)
                 \/ Len(st) >= 1 /\ ev.after = OBytes(Tail(st)))
BufNew(ev) == Clause("C07:Buffer()", ev.after = OBytes(ev.a.b))

\* Properties: C08
EncNum(ev) == Clause("C08:encode_script_number", ev.r = OBytes(ScriptNum(SInt(ev.a.n.neg, ev.a.n.v))))
DecNum(ev) ==
  LET toolong == Len(ev.a.b) > ev.a.size
      notmin  == ev.a.min /\ ~IsMinimalNum(ev.a.b)
      n       == ScriptNumValue(ev.a.b)
  IN  Clause("C08:decode_script_number",
        IF toolong \/ notmin
        THEN \/ toolong /\ ErrIs(ev.r, "encoding.InvalidScriptNumber")
             \/ notmin  /\ ErrIs(ev.r, "encoding.InvalidMinimalScriptNumber")
        ELSE ev.r = OInt(n.neg, n.v))

Codec_Start(h) == << >>
Codec_Failing(st, ev) ==
  CASE ev.op = "enc_b58"    -> EncBase58(ev)
    [] ev.op = "dec_b58"    -> DecBase58(ev)
    [] ev.op = "enc_int"    -> EncInt(ev)
    [] ev.op = "dec_int"    -> DecInt(ev)
    [] ev.op = "enc_varint" -> EncVarInt(ev)
    [] ev.op = "buf_new"    -> BufNew(ev)
    [] ev.op = "buf_write"  -> BufWrite(st, ev)
    [] ev.op = "buf_read"   -> BufRead(st, ev)
    [] ev.op = "buf_varint" -> BufVarInt(st, ev)
    [] ev.op = "enc_num"    -> EncNum(ev)
    [] ev.op = "dec_num"    -> DecNum(ev)
\* The session follows the buffer the code has when it is one the specification
\* allows; otherwise (already reported) it goes on from what is there.
Codec_After(st, ev) ==
  IF ev.op \in {"buf_new", "buf_write", "buf_read", "buf_varint"}
  THEN IF ev.after.k = "bytes" THEN ev.after.v ELSE << >>
  ELSE st
=============================================================================
