-------------------------------- MODULE M_Net -------------------------------
(***************************************************************************)
(* Model for C27: every attribute with every value that some attribute of  *)
(* some network has, and their neighbours.  A value belongs to at most one *)
(* network, every network is found by each of its attributes, and the      *)
(* bytes that start texts tell apart both networks and kinds.              *)
(***************************************************************************)
EXTENDS S_Net, Json
VARIABLES attr, val
vars == << attr, val >>
Values == { AttrObs(n, a) : n \in Networks, a \in Attributes }
Near(v) == IF v.k = "text" THEN { v, OText(Append(v.v, 32)), OText(Tail(v.v)) }
           ELSE { v, ONat(BNAdd(v.v, << 1 >>)), ONat(BNNorm(Rev(v.v))), OText(v.v) } \cup (IF v.v = << >> THEN {} ELSE { ONat(BNSub(v.v, << 1 >>)) })
Init == attr \in Attributes \cup {"nothing", "Name", ""} /\ val = ONone
Next == val = ONone /\ \E v \in Values : val' \in Near(v) /\ UNCHANGED attr
Spec == Init /\ [][Next]_vars

AtMostOne == attr \in Attributes => \A m, n \in Networks : AttrObs(m, attr) = val /\ AttrObs(n, attr) = val => m = n
AllFound == attr \in Attributes => \A n \in Networks : Found(attr, AttrObs(n, attr)) = Yes(n)
\* The first byte of a text of 1 + 20 or of 1 + 32 bytes tells network and kind
PrefixesTell ==
  \A m, n \in Networks : \A a, b \in {"pubkeyhash", "scripthash", "wif_prefix"} :
    AttrObs(m, a) = AttrObs(n, b) => m = n /\ a = b
Emit == val # ONone => PrintT("@" \o ToJson([attr |-> attr, v |-> val]))
=============================================================================
