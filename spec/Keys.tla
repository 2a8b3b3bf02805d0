-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* Networks, private keys, public keys and addresses.                      *)
(***************************************************************************)
EXTENDS Curve

\* Texts as code points
T_livenet == << 108, 105, 118, 101, 110, 101, 116 >>
T_testnet == << 116, 101, 115, 116, 110, 101, 116 >>

Livenet == [name |-> T_livenet, pubkeyhash |-> 0, scripthash |-> 5, wif |-> 128,
            hdpub |-> << 4, 136, 178, 30 >>, hdpriv |-> << 4, 136, 173, 228 >>,
            magic |-> << 249, 190, 180, 217 >>, port |-> << 32, 141 >>]
Testnet == [name |-> T_testnet, pubkeyhash |-> 111, scripthash |-> 196, wif |-> 239,
            hdpub |-> << 4, 53, 135, 207 >>, hdpriv |-> << 4, 53, 131, 148 >>,
            magic |-> << 11, 17, 9, 7 >>, port |-> << 71, 157 >>]
Networks == { Livenet, Testnet }
\* Networks whose attribute satisfies P: at most one
TheNet(S) == IF S = {} THEN No ELSE Yes(CHOOSE x \in S : TRUE)
NetNamed(t)  == TheNet({x \in Networks : x.name = t})
NetOfWif(b)  == TheNet({x \in Networks : x.wif = b})

(* ------------------------------ private keys ---------------------------- *)
ValidSecret(n) == n.neg = 0 /\ n.v # << >> /\ BNLt(n.v, SecpN)

Wif(secret, net, compressed) ==
  B58CheckEncode(<< net.wif >> \o FixedBE(secret, 32) \o (IF compressed THEN << 1 >> ELSE << >>))
ParseWif(t) ==
  LET d == B58CheckDecode(t) IN
  IF ~d.ok \/ Len(d.v) \notin {33, 34} \/ (Len(d.v) = 34 /\ d.v[34] # 1) THEN No
  ELSE LET net == NetOfWif(d.v[1])
           secret == NatBE(SubSeq(d.v, 2, 33))
       IN  IF ~net.ok \/ ~ValidSecret(SInt(0, secret)) THEN No
           ELSE Yes([secret |-> secret, net |-> net.v, compressed |-> Len(d.v) = 34])

PubPoint(secret) == CMul(Secp, secret, SecpG)

(* -------------------------------- addresses ----------------------------- *)
T_pubkeyhash == << 112, 117, 98, 107, 101, 121, 104, 97, 115, 104 >>
T_scripthash == << 115, 99, 114, 105, 112, 116, 104, 97, 115, 104 >>
Version(net, type) == IF type = T_pubkeyhash THEN net.pubkeyhash ELSE net.scripthash
Versions == { [net |-> n, type |-> t] : n \in Networks, t \in {T_pubkeyhash, T_scripthash} }
AddrBytes(a) == << Version(a.net, a.type) >> \o a.phash
AddrText(a)  == B58CheckEncode(AddrBytes(a))
ParseAddr(b) ==
  IF Len(b) # 21 THEN No
  ELSE LET S == {x \in Versions : Version(x.net, x.type) = b[1]}
       IN  IF S = {} THEN No
           ELSE LET x == CHOOSE y \in S : TRUE
                IN  Yes([phash |-> SubSeq(b, 2, 21), net |-> x.net, type |-> x.type])
ParseAddrText(t) == LET d == B58CheckDecode(t) IN IF d.ok THEN ParseAddr(d.v) ELSE No
=============================================================================
