-------------------------------- MODULE M_HD --------------------------------
(***************************************************************************)
(* Model for C19: from a master key, every sequence of Steps operations    *)
(* (derive with various indices, make public, write and read back).  In    *)
(* every state: private and public derivation agree, a public key cannot   *)
(* derive hardened children, a written key reads back to the same key, and *)
(* the path is recorded in depth, index and parent.  Every sequence is     *)
(* replayed on the real code.                                              *)
(***************************************************************************)
EXTENDS HD, Json
CONSTANTS Steps, Seeds, Indices
VARIABLES x, hist, prev
vars == << x, hist, prev >>

SomeSeeds == { Times(0, 32), Times(171, 64) }
MoreSeeds == SomeSeeds \cup { Times(255, 128), TLCEval([i \in 1..33 |-> (7 * i) % 256]) }
Idx(i, h) == [i |-> i, hardened |-> h]
SomeIndices == { Idx(<< >>, FALSE), Idx(<< 127, 255, 255, 255 >>, FALSE), Idx(<< 128, 0, 0, 0 >>, FALSE), Idx(<< 1 >>, TRUE) }
MoreIndices == SomeIndices \cup { Idx(<< 1 >>, FALSE), Idx(<< 255, 255, 255, 255 >>, FALSE), Idx(<< 128, 0, 0, 0 >>, TRUE), Idx(<< 1, 0 >>, FALSE) }

Init == \E s \in Seeds : /\ Master(s).ok
                         /\ x = Master(s).v
                         /\ hist = << [op |-> "seed", a |-> [b |-> s]] >>
                         /\ prev = No
Cur == Len(hist)
Derive == \E d \in Indices :
            LET c == Ckd(x, ChildIndex(d.i, d.hardened)) IN
            /\ c.ok
            /\ x' = c.v /\ prev' = Yes(x)
            /\ hist' = Append(hist, [op |-> "derive", a |-> [of |-> Cur, i |-> d.i, hardened |-> d.hardened]])
Public == /\ x.priv /\ x' = Neuter(x)
          /\ hist' = Append(hist, [op |-> "neuter", a |-> [of |-> Cur]]) /\ UNCHANGED prev
Reread == /\ LET y == ParseX(XText(x), x.priv) IN y.ok /\ x' = y.v
          /\ hist' = Append(hist, [op |-> "reread", a |-> [of |-> Cur]]) /\ UNCHANGED prev
Next == Len(hist) <= Steps /\ (Derive \/ Public \/ Reread)
Spec == Init /\ [][Next]_vars

Commutes == x.priv =>
  \A d \in Indices :
    LET i == ChildIndex(d.i, d.hardened)
        a == Ckd(x, i)
    IN  IF IsHardened(i) THEN ~Ckd(Neuter(x), i).ok
        ELSE a.ok => Ckd(Neuter(x), i) = Yes(Neuter(a.v))
ReadsBack == /\ ParseX(XText(x), x.priv) = Yes(x)
             /\ ~ParseX(XText(x), ~x.priv).ok
             /\ Len(XBytes(x)) = 78
PathKept == /\ prev.ok => x.depth = prev.v.depth + 1 /\ x.parent = Fingerprint(prev.v) /\ x.net = prev.v.net
            /\ ~prev.ok => x.depth = 0 /\ x.parent = << >> /\ x.index = << >>
            /\ x.priv => PubPoint(x.secret) = x.P
\* Test vector 2 of BIP32: the master key, its child 0 and the public form of that
VectorSeed == << 255, 252, 249, 246, 243, 240, 237, 234, 231, 228, 225, 222, 219, 216, 213, 210, 207, 204, 201, 198, 195, 192, 189, 186, 183, 180, 177, 174, 171, 168, 165, 162, 159, 156, 153, 150, 147, 144, 141, 138, 135, 132, 129, 126, 123, 120, 117, 114, 111, 108, 105, 102, 99, 96, 93, 90, 87, 84, 81, 78, 75, 72, 69, 66 >>
VectorM == << 120, 112, 114, 118, 57, 115, 50, 49, 90, 114, 81, 72, 49, 52, 51, 75, 51, 49, 120, 89, 83, 68, 81, 112, 80, 68, 120, 115, 88, 82, 84, 85, 99, 118, 106, 50, 105, 78, 72, 109, 53, 78, 85, 116, 114, 71, 105, 71, 71, 53, 101, 50, 68, 116, 65, 76, 71, 100, 115, 111, 51, 112, 71, 122, 54, 115, 115, 114, 100, 75, 52, 80, 70, 109, 77, 56, 78, 83, 112, 83, 66, 72, 78, 113, 80, 113, 109, 53, 53, 81, 110, 51, 76, 113, 70, 116, 84, 50, 101, 109, 100, 69, 88, 86, 89, 115, 67, 122, 67, 50, 85 >>
VectorM0 == << 120, 112, 114, 118, 57, 118, 72, 107, 113, 97, 54, 69, 86, 52, 115, 80, 90, 72, 89, 113, 90, 122, 110, 104, 84, 50, 78, 80, 116, 80, 67, 106, 75, 117, 68, 75, 71, 89, 51, 56, 70, 66, 87, 76, 118, 103, 97, 68, 120, 52, 53, 122, 111, 57, 87, 81, 82, 85, 84, 51, 100, 75, 89, 110, 106, 119, 105, 104, 50, 121, 74, 68, 57, 109, 107, 114, 111, 99, 69, 90, 88, 111, 49, 101, 120, 56, 71, 56, 49, 100, 119, 83, 77, 49, 102, 119, 113, 87, 112, 87, 107, 101, 83, 51, 118, 56, 54, 112, 103, 75, 116 >>
VectorM0Pub == << 120, 112, 117, 98, 54, 57, 72, 55, 70, 53, 100, 56, 75, 83, 82, 103, 109, 109, 100, 74, 103, 50, 75, 104, 112, 65, 75, 56, 83, 82, 51, 68, 106, 77, 119, 65, 100, 107, 120, 106, 51, 90, 117, 120, 86, 50, 55, 67, 112, 114, 82, 57, 76, 103, 112, 101, 121, 71, 109, 88, 85, 98, 67, 54, 119, 98, 55, 69, 82, 102, 118, 114, 110, 75, 90, 106, 88, 111, 85, 109, 109, 68, 122, 110, 101, 122, 112, 98, 90, 98, 55, 97, 112, 54, 114, 49, 68, 51, 116, 103, 70, 120, 72, 109, 119, 77, 107, 81, 84, 80, 72 >>
VectorsOK == (Cur = 1) =>
  LET m == Master(VectorSeed).v IN
  /\ XText(m) = VectorM
  /\ XText(Ckd(m, << >>).v) = VectorM0
  /\ XText(Neuter(Ckd(m, << >>).v)) = VectorM0Pub
Emit == Cur = Steps + 1 => PrintT("@" \o ToJson([op |-> "path", calls |-> hist]))
=============================================================================
