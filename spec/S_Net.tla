-------------------------------- MODULE S_Net -------------------------------
(***************************************************************************)
(* What the code may do: the table of networks (C27).                      *)
(***************************************************************************)
EXTENDS Keys, Obs

\* What attribute a of network n is observed as; attributes are named as in the interface
Attributes == { "name", "pubkeyhash", "wif_prefix", "scripthash", "hd_public_key", "hd_private_key", "magic", "port" }
AttrObs(n, a) ==
  CASE a = "name"           -> OText(n.name)
    [] a = "pubkeyhash"     -> ONat(BNOf(n.pubkeyhash))
    [] a = "wif_prefix"     -> ONat(BNOf(n.wif))
    [] a = "scripthash"     -> ONat(BNOf(n.scripthash))
    [] a = "hd_public_key"  -> ONat(n.hdpub)
    [] a = "hd_private_key" -> ONat(n.hdpriv)
    [] a = "magic"          -> ONat(n.magic)
    [] a = "port"           -> ONat(n.port)
\* The network that a value of an attribute belongs to
Found(a, v) == IF a \in Attributes THEN TheNet({ n \in Networks : AttrObs(n, a) = v }) ELSE No

Params(ev) ==
  LET n == NetNamed(ev.a.name).v
  IN  Clause("C27:the parameters of a network", \A a \in Attributes : ev.r[a] = AttrObs(n, a))
      \cup Clause("C27:the default network is livenet", ev.default = OText(T_livenet))
Lookup(ev) ==
  LET f == TLCEval(Found(ev.a.attr, ev.a.v))
  IN  IF f.ok THEN Clause("C27:a network is found by its attributes", ev.r = OText(f.v.name))
      ELSE IF ev.a.raises THEN Clause("C27:an unknown network is refused", ErrIs(ev.r, "networks.UnknownNetwork"))
      ELSE Clause("C27:an unknown network is None when asked not to raise", ev.r = ONone)
Itself(ev) == Clause("C27:a network stands for itself", ev.r = OBool(TRUE))

Net_Failing(st, ev) ==
  CASE ev.op = "params" -> Params(ev)
    [] ev.op = "find"   -> Lookup(ev)
    [] ev.op = "itself" -> Itself(ev)
=============================================================================
