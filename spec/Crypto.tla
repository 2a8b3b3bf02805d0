------------------------------- MODULE Crypto -------------------------------
(***************************************************************************)
(* The hash functions the system is built on, on sequences of bytes:       *)
(* SHA-1, SHA-256, SHA-512 (FIPS 180-4), RIPEMD-160, HMAC (RFC 2104).      *)
(*                                                                         *)
(* Words are sequences of 16-bit limbs, most significant first: 2 limbs    *)
(* for the 32-bit functions and 4 for SHA-512, because TLC's integers have *)
(* 32 bits with a sign.  Operators ending in _ are the definitions; the    *)
(* ones without it are what the rest of the specification uses, evaluated  *)
(* by a Java override that M_Base compares with the definition.            *)
(***************************************************************************)
EXTENDS BigNat, Bitwise, TLC

(* ------------------------- words of 16-bit limbs ------------------------ *)
WXor(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])
WAnd(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] & b[i]])
WOr(a, b)  == TLCEval([i \in 1..Len(a) |-> a[i] | b[i]])
WNot(a)    == TLCEval([i \in 1..Len(a) |-> 65535 - a[i]])

RECURSIVE WAddAt_(_, _, _, _)
WAddAt_(a, b, i, carry) ==
  IF i = 0 THEN << >>
  ELSE LET t == a[i] + b[i] + carry
       IN  Append(WAddAt_(a, b, i - 1, t \div 65536), t % 65536)
WAdd(a, b) == WAddAt_(a, b, Len(a), 0)

RECURSIVE WSum(_)
WSum(ws) == IF Len(ws) = 1 THEN ws[1] ELSE WAdd(ws[1], WSum(Tail(ws)))

\* Limb i (1 = most significant) of a rotated right by 16*q + r bits
WRotR(a, n) ==
  LET L == Len(a)  q == n \div 16  r == n % 16
      limb(i) == a[((i - 1 - q + 2 * L) % L) + 1]
  IN  TLCEval([i \in 1..L |-> (limb(i) \div 2^r) + (((limb(i - 1) % 2^r) * 2^(16 - r)) % 65536)])
WRotL(a, n) == WRotR(a, 16 * Len(a) - n)
WShR(a, n) ==
  LET L == Len(a)  q == n \div 16  r == n % 16
      limb(i) == IF i - q >= 1 THEN a[i - q] ELSE 0
  IN  TLCEval([i \in 1..L |-> (limb(i) \div 2^r) + (((limb(i - 1) % 2^r) * 2^(16 - r)) % 65536)])

\* Word number k (from 1) of the byte sequence m, L limbs, big- or little-endian
WordBE(m, k, L) == TLCEval([i \in 1..L |-> LET o == 2 * L * (k - 1) + 2 * (i - 1) IN 256 * m[o + 1] + m[o + 2]])
WordLE(m, k) == LET o == 4 * (k - 1) IN << 256 * m[o + 4] + m[o + 3], 256 * m[o + 2] + m[o + 1] >>
BytesBE(w) == [i \in 1..(2 * Len(w)) |-> LET l == w[(i + 1) \div 2] IN IF i % 2 = 1 THEN l \div 256 ELSE l % 256]
BytesLE(w) == << w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256 >>

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flatten(Tail(ss))

Zeros(n) == [i \in 1..n |-> 0]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* Merkle-Damgard padding to blocks of B bytes with a length field of F bytes
Padded(m, B, F, littleEndian) ==
  LET z == (2 * B - ((Len(m) + 1 + F) % B)) % B
      l == BNFixed(BNMul(BNOf(Len(m)), << 8 >>), F)
  IN  TLCEval(m \o << 128 >> \o Zeros(z) \o (IF littleEndian THEN Rev(l) ELSE l))

RECURSIVE FoldBlocks(_, _, _, _)
FoldBlocks(f(_, _), h, m, B) ==
  IF m = << >> THEN h
  ELSE FoldBlocks(f, TLCEval(f(h, SubSeq(m, 1, B))), SubSeq(m, B + 1, Len(m)), B)

VAdd(a, b) == TLCEval([i \in 1..Len(a) |-> WAdd(a[i], b[i])])

(* ------------------------------- SHA-2 ---------------------------------- *)
K256 == <<
  <<17034,12184>>, <<28983,17553>>, <<46528,64463>>, <<59829,56229>>, <<14678,49755>>, <<23025,4593>>, <<37439,33444>>, <<43804,24277>>,
  <<55303,43672>>, <<4739,23297>>, <<9265,34238>>, <<21772,32195>>, <<29374,23924>>, <<32990,45566>>, <<39900,1703>>, <<49563,61812>>,
  <<58523,27073>>, <<61374,18310>>, <<4033,40390>>, <<9228,41420>>, <<11753,11375>>, <<19060,33962>>, <<23728,43484>>, <<30457,35034>>,
  <<38974,20818>>, <<43057,50797>>, <<45059,10184>>, <<48985,32711>>, <<50912,3059>>, <<54695,37191>>, <<1738,25425>>, <<5161,10599>>,
  <<10167,2693>>, <<11803,8504>>, <<19756,28156>>, <<21304,3347>>, <<25866,29524>>, <<30314,2747>>, <<33218,51502>>, <<37490,11397>>,
  <<41663,59553>>, <<43034,26187>>, <<49739,35696>>, <<51052,20899>>, <<53650,59417>>, <<54937,1572>>, <<62478,13701>>, <<4202,41072>>,
  <<6564,49430>>, <<7735,27656>>, <<10056,30540>>, <<13488,48309>>, <<14620,3251>>, <<20184,43594>>, <<23452,51791>>, <<26670,28659>>,
  <<29839,33518>>, <<30885,25455>>, <<33992,30740>>, <<36039,520>>, <<37054,65530>>, <<42064,27883>>, <<48889,41975>>, <<50801,30962>> >>
H256 == <<
  <<27145,58983>>, <<47975,44677>>, <<15470,62322>>, <<42319,62778>>, <<20750,21119>>, <<39685,26764>>, <<8067,55723>>, <<23520,52505>> >>
K512 == <<
  <<17034,12184,55080,44578>>, <<28983,17553,9199,26061>>, <<46528,64463,60493,15151>>, <<59829,56229,33161,56252>>,
  <<14678,49755,62280,46392>>, <<23025,4593,46597,53273>>, <<37439,33444,44825,20379>>, <<43804,24277,55917,33048>>,
  <<55303,43672,41731,578>>, <<4739,23297,17776,28606>>, <<9265,34238,20196,45708>>, <<21772,32195,54783,46306>>,
  <<29374,23924,62075,35183>>, <<32990,45566,15126,38577>>, <<39900,1703,9671,4661>>, <<49563,61812,53097,9876>>,
  <<58523,27073,40689,19154>>, <<61374,18310,14415,9699>>, <<4033,40390,35724,54709>>, <<9228,41420,30636,40037>>,
  <<11753,11375,22827,629>>, <<19060,33962,28326,58499>>, <<23728,43484,48449,64468>>, <<30457,35034,33553,21429>>,
  <<38974,20818,61030,57259>>, <<43057,50797,11700,12816>>, <<45059,10184,39163,8511>>, <<48985,32711,48879,3812>>,
  <<50912,3059,15784,36802>>, <<54695,37191,37642,42789>>, <<1738,25425,57347,33391>>, <<5161,10599,2574,28272>>,
  <<10167,2693,18130,12284>>, <<11803,8504,23590,51494>>, <<19756,28156,23236,10989>>, <<21304,3347,40341,46047>>,
  <<25866,29524,35759,25566>>, <<30314,2747,15479,45736>>, <<33218,51502,18413,44774>>, <<37490,11397,5250,13627>>,
  <<41663,59553,19697,868>>, <<43034,26187,48194,12289>>, <<49739,35696,53496,38801>>, <<51052,20899,1620,48688>>,
  <<53650,59417,55023,21016>>, <<54937,1572,21861,43280>>, <<62478,13701,22385,8234>>, <<4202,41072,12987,53688>>,
  <<6564,49430,47314,53448>>, <<7735,27656,20801,43859>>, <<10056,30540,57230,60313>>, <<13488,48309,57755,18600>>,
  <<14620,3251,50633,23139>>, <<20184,43594,58177,35531>>, <<23452,51791,30563,58227>>, <<26670,28659,54962,47267>>,
  <<29839,33518,24047,45820>>, <<30885,25455,17175,12128>>, <<33992,30740,41456,43890>>, <<36039,520,6756,14828>>,
  <<37054,65530,9059,7720>>, <<42064,27883,56962,48617>>, <<48889,41975,45766,30997>>, <<50801,30962,58226,21291>>,
  <<51751,16078,59942,24988>>, <<53638,47303,8640,49671>>, <<60122,32214,52704,60190>>, <<62845,20351,61038,53624>>,
  <<1776,26538,29207,28602>>, <<2659,32197,41672,39078>>, <<4415,38916,48889,3502>>, <<7025,2869,4892,18203>>,
  <<10459,30709,8964,32132>>, <<13002,43899,16583,9363>>, <<15518,48650,5577,48828>>, <<17181,26564,39952,3404>>,
  <<19653,54462,52030,17078>>, <<22911,10652,64613,32298>>, <<24523,28587,15062,64236>>, <<27716,6540,19015,22551>> >>
H512 == <<
  <<27145,58983,62396,51464>>, <<47975,44677,33994,42811>>, <<15470,62322,65172,63531>>, <<42319,62778,24349,14065>>,
  <<20750,21119,44518,33489>>, <<39685,26764,11070,27679>>, <<8067,55723,64321,48491>>, <<23520,52505,4990,8569>> >>

Ch(x, y, z)  == WXor(WAnd(x, y), WAnd(WNot(x), z))
Maj(x, y, z) == WXor(WXor(WAnd(x, y), WAnd(x, z)), WAnd(y, z))

\* Rotation and shift amounts: <<Sigma0, Sigma1, sigma0, sigma1>>
R256 == << <<2, 13, 22>>, <<6, 11, 25>>, <<7, 18, 3>>, <<17, 19, 10>> >>
R512 == << <<28, 34, 39>>, <<14, 18, 41>>, <<1, 8, 7>>, <<19, 61, 6>> >>
BSig(x, r) == WXor(WXor(WRotR(x, r[1]), WRotR(x, r[2])), WRotR(x, r[3]))
SSig(x, r) == WXor(WXor(WRotR(x, r[1]), WRotR(x, r[2])), WShR(x, r[3]))

RECURSIVE Schedule2(_, _, _)
Schedule2(w, n, R) ==
  IF Len(w) = n THEN w
  ELSE LET t == Len(w) + 1
       IN  Schedule2(TLCEval(Append(w, WSum(<< SSig(w[t - 2], R[4]), w[t - 7], SSig(w[t - 15], R[3]), w[t - 16] >>))), n, R)

RECURSIVE Rounds2(_, _, _, _, _)
Rounds2(v, w, t, K, R) ==
  IF t > Len(K) THEN v
  ELSE LET t1 == WSum(<< v[8], BSig(v[5], R[2]), Ch(v[5], v[6], v[7]), K[t], w[t] >>)
           t2 == WAdd(BSig(v[1], R[1]), Maj(v[1], v[2], v[3]))
       IN  Rounds2(TLCEval(<< WAdd(t1, t2), v[1], v[2], v[3], WAdd(v[4], t1), v[5], v[6], v[7] >>), w, t + 1, K, R)

Block256(h, b) == VAdd(h, Rounds2(h, Schedule2(TLCEval([k \in 1..16 |-> WordBE(b, k, 2)]), 64, R256), 1, K256, R256))
Block512(h, b) == VAdd(h, Rounds2(h, Schedule2(TLCEval([k \in 1..16 |-> WordBE(b, k, 4)]), 80, R512), 1, K512, R512))

Sha256_(m) == LET h == FoldBlocks(Block256, H256, Padded(m, 64, 8, FALSE), 64)
              IN  Flatten([i \in 1..8 |-> BytesBE(h[i])])
Sha512_(m) == LET h == FoldBlocks(Block512, H512, Padded(m, 128, 16, FALSE), 128)
              IN  Flatten([i \in 1..8 |-> BytesBE(h[i])])

(* ------------------------------- SHA-1 ---------------------------------- *)
H1 == << <<26437,8961>>, <<61389,43913>>, <<39098,56574>>, <<4146,21622>>, <<50130,57840>> >>
K1 == << <<23170,31129>>, <<28377,60321>>, <<36635,48348>>, <<51810,49622>> >>
F1(t, x, y, z) == IF t <= 20 THEN Ch(x, y, z)
                  ELSE IF t <= 40 \/ t > 60 THEN WXor(WXor(x, y), z)
                  ELSE Maj(x, y, z)
RECURSIVE Schedule1(_)
Schedule1(w) ==
  IF Len(w) = 80 THEN w
  ELSE LET t == Len(w) + 1
       IN  Schedule1(TLCEval(Append(w, WRotL(WXor(WXor(w[t - 3], w[t - 8]), WXor(w[t - 14], w[t - 16])), 1))))
RECURSIVE Rounds1(_, _, _)
Rounds1(v, w, t) ==
  IF t > 80 THEN v
  ELSE LET x == WSum(<< WRotL(v[1], 5), F1(t, v[2], v[3], v[4]), v[5], K1[(t - 1) \div 20 + 1], w[t] >>)
       IN  Rounds1(TLCEval(<< x, v[1], WRotL(v[2], 30), v[3], v[4] >>), w, t + 1)
Block1(h, b) == VAdd(h, Rounds1(h, Schedule1(TLCEval([k \in 1..16 |-> WordBE(b, k, 2)])), 1))
Sha1_(m) == LET h == FoldBlocks(Block1, H1, Padded(m, 64, 8, FALSE), 64)
            IN  Flatten([i \in 1..5 |-> BytesBE(h[i])])

(* ----------------------------- RIPEMD-160 ------------------------------- *)
RK1 == << <<0,0>>, <<23170,31129>>, <<28377,60321>>, <<36635,48348>>, <<43347,64846>> >>
RK2 == << <<20642,35814>>, <<23629,53540>>, <<28016,16115>>, <<31341,30441>>, <<0,0>> >>
RMD_R1 == <<
  0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15,
  7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8,
  3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12,
  1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2,
  4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13 >>
RMD_R2 == <<
  5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12,
  6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2,
  15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13,
  8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14,
  12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11 >>
RMD_S1 == <<
  11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8,
  7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
  11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5,
  11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
  9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6 >>
RMD_S2 == <<
  8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6,
  9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
  9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5,
  15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
  8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11 >>
FR(j, x, y, z) == CASE j = 0 -> WXor(WXor(x, y), z)
                    [] j = 1 -> WOr(WAnd(x, y), WAnd(WNot(x), z))
                    [] j = 2 -> WXor(WOr(x, WNot(y)), z)
                    [] j = 3 -> WOr(WAnd(x, z), WAnd(y, WNot(z)))
                    [] OTHER -> WXor(x, WOr(y, WNot(z)))
\* One line (left or right) of 80 steps
RECURSIVE LineR(_, _, _, _, _, _, _)
LineR(v, x, t, r, s, k, right) ==
  IF t > 80 THEN v
  ELSE LET j == (t - 1) \div 16
           f == FR(IF right THEN 4 - j ELSE j, v[2], v[3], v[4])
           b == WAdd(WRotL(WSum(<< v[1], f, x[r[t] + 1], k[j + 1] >>), s[t]), v[5])
       IN  LineR(TLCEval(<< v[5], b, v[2], WRotL(v[3], 10), v[4] >>), x, t + 1, r, s, k, right)
BlockR(h, m) ==
  LET x == TLCEval([k \in 1..16 |-> WordLE(m, k)])
      a == LineR(h, x, 1, RMD_R1, RMD_S1, RK1, FALSE)
      b == LineR(h, x, 1, RMD_R2, RMD_S2, RK2, TRUE)
  IN  << WSum(<< h[2], a[3], b[4] >>), WSum(<< h[3], a[4], b[5] >>), WSum(<< h[4], a[5], b[1] >>),
         WSum(<< h[5], a[1], b[2] >>), WSum(<< h[1], a[2], b[3] >>) >>
Ripemd160_(m) == LET h == FoldBlocks(BlockR, H1, Padded(m, 64, 8, TRUE), 64)
                 IN  Flatten([i \in 1..5 |-> BytesLE(h[i])])

(* ------------------------- what the others use -------------------------- *)
Sha1(m)      == Sha1_(m)
Sha256(m)    == Sha256_(m)
Sha512(m)    == Sha512_(m)
Ripemd160(m) == Ripemd160_(m)

Hash256(m) == Sha256(Sha256(m))
Hash160(m) == Ripemd160(Sha256(m))

Pad0(s, n) == s \o Zeros(n - Len(s))
XorAll(s, x) == [i \in 1..Len(s) |-> s[i] ^^ x]
\* H: the hash function, B: its block size
Hmac(H(_), B, key, m) ==
  LET k == Pad0(IF Len(key) > B THEN H(key) ELSE key, B)
  IN  H(XorAll(k, 92) \o H(XorAll(k, 54) \o m))
HmacSha256(key, m) == Hmac(Sha256, 64, key, m)
HmacSha512(key, m) == Hmac(Sha512, 128, key, m)
=============================================================================
