------------------------------ MODULE M_Script ------------------------------
(***************************************************************************)
(* Model for C09, C10, C11: every script of up to MaxLen instructions      *)
(* chosen from Palette, built instruction by instruction, and every byte   *)
(* string over Bytes of up to MaxBytes bytes.  All are emitted and         *)
(* replayed on the real code.                                              *)
(***************************************************************************)
EXTENDS Script, Json
CONSTANTS MaxLen, MaxBytes
VARIABLES mode, is, raw
vars == << mode, is, raw >>

Palette == { Op(0), Op(81), Op(96), Op(106), Op(118), Op(135), Op(136), Op(169), Op(172), Op(174),
             Op(79), Op(80), Push(1, << 5 >>), Push(2, << 0, 255 >>), Push(76, << >>), Push(76, << 7 >>),
             Push(77, << 1, 2 >>), Push(78, << 9 >>) }
Bytes == { 0, 1, 2, 75, 76, 77, 78, 79, 106, 169, 255 }

Init == mode \in {"ins", "raw"} /\ is = << >> /\ raw = << >>
Next == \/ mode = "ins" /\ Len(is) < MaxLen /\ \E x \in Palette : is' = Append(is, x) /\ UNCHANGED << mode, raw >>
        \/ mode = "raw" /\ Len(raw) < MaxBytes /\ \E x \in Bytes : raw' = Append(raw, x) /\ UNCHANGED << mode, is >>
Spec == Init /\ [][Next]_vars

BytesRoundTrip == mode = "ins" => ParseScript(ScriptBytes(is)) = Yes(is)
\* A cut script is either refused or a prefix of the script
Prefixes == mode = "ins" =>
  LET b == ScriptBytes(is) IN
  \A k \in 0..(Len(b) - 1) :
    LET p == ParseScript(SubSeq(b, 1, k)) IN p.ok => IsPrefixOf(p.v, is) /\ ScriptBytes(p.v) = SubSeq(b, 1, k)
RawExact == mode = "raw" => LET p == ParseScript(raw) IN p.ok => ScriptBytes(p.v) = raw /\ \A j \in 1..Len(p.v) : ValidIns(p.v[j])
TextRoundTrip == mode = "ins" => HasText(is) /\ ParseText(ScriptText(is)) = Yes(is)
OneShape == mode = "ins" => \A x, y \in Shapes(is) : x = y
TemplatesHaveTheirShape ==
  (mode = "ins" /\ is = << >>) =>
    LET h == Times(3, 20)  k == Times(2, 33) IN
    /\ Shape(P2pkhOut(h)) = "PayToPubkeyOut" /\ Shape(P2pkhIn(Times(1, 71), k)) = "PayToPubkeyIn"
    /\ Shape(P2shOut(h)) = "PayToScriptOut" /\ Shape(P2shIn(<< Times(1, 71) >>, k)) = "PayToScriptIn"
    /\ Shape(DataOut(<< 1 >>)) = "OpReturnOut"
    /\ \A n \in 1..16 : \A m \in 0..n : Shape(Multisig([j \in 1..n |-> k], m)) = "RedeemMultisig"
OpTableOneToOne == (mode = "ins" /\ is = << >>) =>
    \A x, y \in OpTable : x[1] = y[1] => x = y
Emit == PrintT("@" \o ToJson([op |-> mode, b |-> IF mode = "ins" THEN ScriptBytes(is) ELSE raw,
                              ins |-> [j \in 1..Len(is) |-> [op |-> is[j].op, has |-> is[j].push, data |-> is[j].data]]]))
=============================================================================
