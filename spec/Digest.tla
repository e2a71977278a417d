------------------------------- MODULE Digest -------------------------------
(***************************************************************************)
(* The message digests of libhmac, written down from RFC 1321 (MD5) and    *)
(* FIPS 180-4 (SHA-1, SHA-224, SHA-256, SHA-512), and the HMAC             *)
(* construction of RFC 2104.  The module is executable: TLC evaluates      *)
(* Hash(alg, m) and Hmac(alg, k, m) for concrete byte sequences, and this  *)
(* value is the oracle that the implementation is compared against.        *)
(*                                                                         *)
(* TLC integers are 32 bit and signed, so a machine word is a sequence of  *)
(* 16-bit limbs, most significant first: 2 limbs for the 32-bit algorithms *)
(* and 4 for SHA-512.  Lengths are limbs too: a message size is a sequence *)
(* of four limbs (64 bits) so that sizes far beyond 2^31 can be stated.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

Algs == {"md5", "sha1", "sha224", "sha256", "sha512"}

(* Observable sizes, in bytes. *)
BlockSize  == [a \in Algs |-> IF a = "sha512" THEN 128 ELSE 64]
DigestSize == [md5 |-> 16, sha1 |-> 20, sha224 |-> 28, sha256 |-> 32, sha512 |-> 64]
LengthSize == [a \in Algs |-> IF a = "sha512" THEN 16 ELSE 8]

-----------------------------------------------------------------------------
(* 32-bit words: <<hi, lo>>.                                               *)

M == 65536
Not16(x) == 65535 - x

Xor2(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
And2(x, y) == <<x[1] & y[1], x[2] & y[2]>>
Or2(x, y)  == <<x[1] | y[1], x[2] | y[2]>>
Not2(x)    == <<65535 - x[1], 65535 - x[2]>>
Add2(x, y) ==
  LET l == x[2] + y[2] IN <<(x[1] + y[1] + (l \div M)) % M, l % M>>
Add2x3(x, y, z) ==
  LET l == x[2] + y[2] + z[2] IN <<(x[1] + y[1] + z[1] + (l \div M)) % M, l % M>>
Add2x4(x, y, z, u) ==
  LET l == x[2] + y[2] + z[2] + u[2]
  IN <<(x[1] + y[1] + z[1] + u[1] + (l \div M)) % M, l % M>>
Add2x5(x, y, z, u, v) ==
  LET l == x[2] + y[2] + z[2] + u[2] + v[2]
  IN <<(x[1] + y[1] + z[1] + u[1] + v[1] + (l \div M)) % M, l % M>>

(* Right rotation by 0 < n < 16, by exactly 16 and beyond; left by 32 - n. *)
RotrS(x, p, q) ==      \* p = 2^n, q = 2^(16-n)
  <<(x[1] \div p) + (x[2] % p) * q, (x[2] \div p) + (x[1] % p) * q>>
Pow2 == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536>>
Rotr2(x, n) ==
  IF n = 0 THEN x
  ELSE IF n < 16 THEN RotrS(x, Pow2[n + 1], Pow2[17 - n])
  ELSE IF n = 16 THEN <<x[2], x[1]>>
  ELSE RotrS(<<x[2], x[1]>>, Pow2[n - 15], Pow2[33 - n])
Rotl2(x, n) == Rotr2(x, 32 - n)
Shr2(x, n) ==          \* 0 < n < 16
  LET p == Pow2[n + 1]
  IN <<x[1] \div p, (x[2] \div p) + (x[1] % p) * Pow2[17 - n]>>

-----------------------------------------------------------------------------
(* 64-bit words: four limbs.                                               *)

Xor4(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2], x[3] ^^ y[3], x[4] ^^ y[4]>>
And4(x, y) == <<x[1] & y[1], x[2] & y[2], x[3] & y[3], x[4] & y[4]>>
Not4(x)    == <<65535 - x[1], 65535 - x[2], 65535 - x[3], 65535 - x[4]>>
Carry4(a, b, c, d) ==
  LET c3 == c + (d \div M)
      c2 == b + (c3 \div M)
      c1 == a + (c2 \div M)
  IN <<c1 % M, c2 % M, c3 % M, d % M>>
Add4(x, y) == Carry4(x[1]+y[1], x[2]+y[2], x[3]+y[3], x[4]+y[4])
Add4x4(x, y, z, u) ==
  Carry4(x[1]+y[1]+z[1]+u[1], x[2]+y[2]+z[2]+u[2], x[3]+y[3]+z[3]+u[3], x[4]+y[4]+z[4]+u[4])
Add4x5(x, y, z, u, v) ==
  Carry4(x[1]+y[1]+z[1]+u[1]+v[1], x[2]+y[2]+z[2]+u[2]+v[2],
         x[3]+y[3]+z[3]+u[3]+v[3], x[4]+y[4]+z[4]+u[4]+v[4])
Rotr4(x, n) ==
  LET p == Pow2[(n % 16) + 1]
      q == Pow2[17 - (n % 16)]
      s == n \div 16
      y == [i \in 1..4 |-> x[((i - 1 - s) % 4) + 1]]
  IN <<(y[1] \div p) + (y[4] % p) * q, (y[2] \div p) + (y[1] % p) * q,
       (y[3] \div p) + (y[2] % p) * q, (y[4] \div p) + (y[3] % p) * q>>
Shr4(x, n) ==          \* 0 < n < 16
  LET p == Pow2[n + 1]
      q == Pow2[17 - n]
  IN <<x[1] \div p, (x[2] \div p) + (x[1] % p) * q,
       (x[3] \div p) + (x[2] % p) * q, (x[4] \div p) + (x[3] % p) * q>>

-----------------------------------------------------------------------------
(* Constants: the fractional parts of roots of primes, and of |sin|.       *)

K256 == <<
  <<17034,12184>>, <<28983,17553>>, <<46528,64463>>, <<59829,56229>>, <<14678,49755>>, <<23025,4593>>, <<37439,33444>>, <<43804,24277>>,
  <<55303,43672>>, <<4739,23297>>, <<9265,34238>>, <<21772,32195>>, <<29374,23924>>, <<32990,45566>>, <<39900,1703>>, <<49563,61812>>,
  <<58523,27073>>, <<61374,18310>>, <<4033,40390>>, <<9228,41420>>, <<11753,11375>>, <<19060,33962>>, <<23728,43484>>, <<30457,35034>>,
  <<38974,20818>>, <<43057,50797>>, <<45059,10184>>, <<48985,32711>>, <<50912,3059>>, <<54695,37191>>, <<1738,25425>>, <<5161,10599>>,
  <<10167,2693>>, <<11803,8504>>, <<19756,28156>>, <<21304,3347>>, <<25866,29524>>, <<30314,2747>>, <<33218,51502>>, <<37490,11397>>,
  <<41663,59553>>, <<43034,26187>>, <<49739,35696>>, <<51052,20899>>, <<53650,59417>>, <<54937,1572>>, <<62478,13701>>, <<4202,41072>>,
  <<6564,49430>>, <<7735,27656>>, <<10056,30540>>, <<13488,48309>>, <<14620,3251>>, <<20184,43594>>, <<23452,51791>>, <<26670,28659>>,
  <<29839,33518>>, <<30885,25455>>, <<33992,30740>>, <<36039,520>>, <<37054,65530>>, <<42064,27883>>, <<48889,41975>>, <<50801,30962>>
>>
K512 == <<
  <<17034,12184,55080,44578>>, <<28983,17553,9199,26061>>, <<46528,64463,60493,15151>>, <<59829,56229,33161,56252>>,
  <<14678,49755,62280,46392>>, <<23025,4593,46597,53273>>, <<37439,33444,44825,20379>>, <<43804,24277,55917,33048>>,
  <<55303,43672,41731,578>>, <<4739,23297,17776,28606>>, <<9265,34238,20196,45708>>, <<21772,32195,54783,46306>>,
  <<29374,23924,62075,35183>>, <<32990,45566,15126,38577>>, <<39900,1703,9671,4661>>, <<49563,61812,53097,9876>>,
  <<58523,27073,40689,19154>>, <<61374,18310,14415,9699>>, <<4033,40390,35724,54709>>, <<9228,41420,30636,40037>>,
  <<11753,11375,22827,629>>, <<19060,33962,28326,58499>>, <<23728,43484,48449,64468>>, <<30457,35034,33553,21429>>,
  <<38974,20818,61030,57259>>, <<43057,50797,11700,12816>>, <<45059,10184,39163,8511>>, <<48985,32711,48879,3812>>,
  <<50912,3059,15784,36802>>, <<54695,37191,37642,42789>>, <<1738,25425,57347,33391>>, <<5161,10599,2574,28272>>,
  <<10167,2693,18130,12284>>, <<11803,8504,23590,51494>>, <<19756,28156,23236,10989>>, <<21304,3347,40341,46047>>,
  <<25866,29524,35759,25566>>, <<30314,2747,15479,45736>>, <<33218,51502,18413,44774>>, <<37490,11397,5250,13627>>,
  <<41663,59553,19697,868>>, <<43034,26187,48194,12289>>, <<49739,35696,53496,38801>>, <<51052,20899,1620,48688>>,
  <<53650,59417,55023,21016>>, <<54937,1572,21861,43280>>, <<62478,13701,22385,8234>>, <<4202,41072,12987,53688>>,
  <<6564,49430,47314,53448>>, <<7735,27656,20801,43859>>, <<10056,30540,57230,60313>>, <<13488,48309,57755,18600>>,
  <<14620,3251,50633,23139>>, <<20184,43594,58177,35531>>, <<23452,51791,30563,58227>>, <<26670,28659,54962,47267>>,
  <<29839,33518,24047,45820>>, <<30885,25455,17175,12128>>, <<33992,30740,41456,43890>>, <<36039,520,6756,14828>>,
  <<37054,65530,9059,7720>>, <<42064,27883,56962,48617>>, <<48889,41975,45766,30997>>, <<50801,30962,58226,21291>>,
  <<51751,16078,59942,24988>>, <<53638,47303,8640,49671>>, <<60122,32214,52704,60190>>, <<62845,20351,61038,53624>>,
  <<1776,26538,29207,28602>>, <<2659,32197,41672,39078>>, <<4415,38916,48889,3502>>, <<7025,2869,4892,18203>>,
  <<10459,30709,8964,32132>>, <<13002,43899,16583,9363>>, <<15518,48650,5577,48828>>, <<17181,26564,39952,3404>>,
  <<19653,54462,52030,17078>>, <<22911,10652,64613,32298>>, <<24523,28587,15062,64236>>, <<27716,6540,19015,22551>>
>>
KMd5 == <<
  <<55146,42104>>, <<59591,46934>>, <<9248,28891>>, <<49597,52974>>, <<62844,4015>>, <<18311,50730>>, <<43056,17939>>, <<64838,38145>>,
  <<27008,39128>>, <<35652,63407>>, <<65535,23473>>, <<35164,55230>>, <<27536,4386>>, <<64920,29075>>, <<42617,17294>>, <<18868,2081>>,
  <<63006,9570>>, <<49216,45888>>, <<9822,23121>>, <<59830,51114>>, <<54831,4189>>, <<580,5203>>, <<55457,59009>>, <<59347,64456>>,
  <<8673,52710>>, <<49975,2006>>, <<62677,3463>>, <<17754,5357>>, <<43491,59653>>, <<64751,41976>>, <<26479,729>>, <<36138,19594>>,
  <<65530,14658>>, <<34673,63105>>, <<28061,24866>>, <<64997,14348>>, <<42174,59972>>, <<19422,53161>>, <<63163,19296>>, <<48831,48240>>,
  <<10395,32454>>, <<60065,10234>>, <<54511,12421>>, <<1160,7429>>, <<55764,53305>>, <<59099,39397>>, <<8098,31992>>, <<50348,22117>>,
  <<62505,8772>>, <<17194,65431>>, <<43924,9127>>, <<64659,41017>>, <<25947,22979>>, <<36620,52370>>, <<65519,62589>>, <<34180,24017>>,
  <<28584,32335>>, <<65068,59104>>, <<41729,17172>>, <<19976,4513>>, <<63315,32386>>, <<48442,62005>>, <<10967,53947>>, <<60294,54161>>
>>
H256 == <<
  <<27145,58983>>, <<47975,44677>>, <<15470,62322>>, <<42319,62778>>, <<20750,21119>>, <<39685,26764>>, <<8067,55723>>, <<23520,52505>>
>>
H224 == <<
  <<49413,40664>>, <<13948,54535>>, <<12400,56599>>, <<63246,22841>>, <<65472,2865>>, <<26712,5393>>, <<25849,36775>>, <<48890,20388>>
>>
H512 == <<
  <<27145,58983,62396,51464>>, <<47975,44677,33994,42811>>, <<15470,62322,65172,63531>>, <<42319,62778,24349,14065>>,
  <<20750,21119,44518,33489>>, <<39685,26764,11070,27679>>, <<8067,55723,64321,48491>>, <<23520,52505,4990,8569>>
>>
HMd5 == <<
  <<26437,8961>>, <<61389,43913>>, <<39098,56574>>, <<4146,21622>>
>>
HSha1 == <<
  <<26437,8961>>, <<61389,43913>>, <<39098,56574>>, <<4146,21622>>, <<50130,57840>>
>>
KSha1 == <<
  <<23170,31129>>, <<28377,60321>>, <<36635,48348>>, <<51810,49622>>
>>

InitialValue == [md5 |-> HMd5, sha1 |-> HSha1, sha224 |-> H224, sha256 |-> H256, sha512 |-> H512]

-----------------------------------------------------------------------------
(* Bytes to words and back.  Offsets are 0 based.                          *)

BE2(b, o) == <<b[o+1] * 256 + b[o+2], b[o+3] * 256 + b[o+4]>>
LE2(b, o) == <<b[o+4] * 256 + b[o+3], b[o+2] * 256 + b[o+1]>>
BE4(b, o) == <<b[o+1] * 256 + b[o+2], b[o+3] * 256 + b[o+4],
               b[o+5] * 256 + b[o+6], b[o+7] * 256 + b[o+8]>>
Hi(x) == x \div 256
Lo(x) == x % 256
OutBE2(w) == <<Hi(w[1]), Lo(w[1]), Hi(w[2]), Lo(w[2])>>
OutLE2(w) == <<Lo(w[2]), Hi(w[2]), Lo(w[1]), Hi(w[1])>>
OutBE4(w) == <<Hi(w[1]), Lo(w[1]), Hi(w[2]), Lo(w[2]), Hi(w[3]), Lo(w[3]), Hi(w[4]), Lo(w[4])>>

Idx(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]

-----------------------------------------------------------------------------
(* Compression functions.  h: chaining value; b: bytes; o: block offset.   *)

MdRot == <<<<7, 12, 17, 22>>, <<5, 9, 14, 20>>, <<4, 11, 16, 23>>, <<6, 10, 15, 21>>>>
MdIdx(i) == CASE i < 16 -> i
              [] i >= 16 /\ i < 32 -> (5 * i + 1) % 16
              [] i >= 32 /\ i < 48 -> (3 * i + 5) % 16
              [] OTHER -> (7 * i) % 16
MdIndex == [i \in 1..64 |-> MdIdx(i - 1) + 1]
MdShift == [i \in 1..64 |-> MdRot[((i - 1) \div 16) + 1][((i - 1) % 4) + 1]]
MdF(i, x, y, z) ==
  CASE i < 16 -> Or2(And2(x, y), And2(Not2(x), z))
    [] i >= 16 /\ i < 32 -> Or2(And2(x, z), And2(y, Not2(z)))
    [] i >= 32 /\ i < 48 -> Xor2(Xor2(x, y), z)
    [] OTHER -> Xor2(y, Or2(x, Not2(z)))

CompressMd5(h, b, o) ==
  LET X == [i \in 1..16 |-> LE2(b, o + 4 * (i - 1))]
      Round(s, i) ==
        LET f == Add2x4(s[1], MdF(i - 1, s[2], s[3], s[4]), X[MdIndex[i]], KMd5[i])
        IN <<s[4], Add2(s[2], Rotl2(f, MdShift[i])), s[2], s[3]>>
      r == FoldLeft(Round, h, Idx(1, 64))
  IN <<Add2(h[1], r[1]), Add2(h[2], r[2]), Add2(h[3], r[3]), Add2(h[4], r[4])>>

ShF(i, x, y, z) ==
  CASE i < 20 -> Xor2(And2(x, y), And2(Not2(x), z))
    [] i >= 40 /\ i < 60 -> Xor2(Xor2(And2(x, y), And2(x, z)), And2(y, z))
    [] OTHER -> Xor2(Xor2(x, y), z)

CompressSha1(h, b, o) ==
  LET W0 == [i \in 1..16 |-> BE2(b, o + 4 * (i - 1))]
      W == FoldLeft(LAMBDA w, t :
              Append(w, Rotl2(Xor2(Xor2(w[t-3], w[t-8]), Xor2(w[t-14], w[t-16])), 1)),
              W0, Idx(17, 80))
      Round(s, i) ==
        <<Add2x5(Rotl2(s[1], 5), ShF(i - 1, s[2], s[3], s[4]), s[5], KSha1[((i - 1) \div 20) + 1], W[i]),
          s[1], Rotl2(s[2], 30), s[3], s[4]>>
      r == FoldLeft(Round, h, Idx(1, 80))
  IN [j \in 1..5 |-> Add2(h[j], r[j])]

CompressSha256(h, b, o) ==
  LET W0 == [i \in 1..16 |-> BE2(b, o + 4 * (i - 1))]
      S0(x) == Xor2(Xor2(Rotr2(x, 2), Rotr2(x, 13)), Rotr2(x, 22))
      S1(x) == Xor2(Xor2(Rotr2(x, 6), Rotr2(x, 11)), Rotr2(x, 25))
      s0(x) == Xor2(Xor2(Rotr2(x, 7), Rotr2(x, 18)), Shr2(x, 3))
      s1(x) == Xor2(Xor2(Rotr2(x, 17), Rotr2(x, 19)), Shr2(x, 10))
      Ch(x, y, z) == Xor2(And2(x, y), And2(Not2(x), z))
      Maj(x, y, z) == Xor2(Xor2(And2(x, y), And2(x, z)), And2(y, z))
      W == FoldLeft(LAMBDA w, t :
              Append(w, Add2x4(s1(w[t-2]), w[t-7], s0(w[t-15]), w[t-16])),
              W0, Idx(17, 64))
      Round(s, i) ==
        LET T1 == Add2x5(s[8], S1(s[5]), Ch(s[5], s[6], s[7]), K256[i], W[i])
        IN <<Add2x3(T1, S0(s[1]), Maj(s[1], s[2], s[3])), s[1], s[2], s[3],
             Add2(s[4], T1), s[5], s[6], s[7]>>
      r == FoldLeft(Round, h, Idx(1, 64))
  IN [j \in 1..8 |-> Add2(h[j], r[j])]

CompressSha512(h, b, o) ==
  LET W0 == [i \in 1..16 |-> BE4(b, o + 8 * (i - 1))]
      S0(x) == Xor4(Xor4(Rotr4(x, 28), Rotr4(x, 34)), Rotr4(x, 39))
      S1(x) == Xor4(Xor4(Rotr4(x, 14), Rotr4(x, 18)), Rotr4(x, 41))
      s0(x) == Xor4(Xor4(Rotr4(x, 1), Rotr4(x, 8)), Shr4(x, 7))
      s1(x) == Xor4(Xor4(Rotr4(x, 19), Rotr4(x, 61)), Shr4(x, 6))
      Ch(x, y, z) == Xor4(And4(x, y), And4(Not4(x), z))
      Maj(x, y, z) == Xor4(Xor4(And4(x, y), And4(x, z)), And4(y, z))
      W == FoldLeft(LAMBDA w, t :
              Append(w, Add4x4(s1(w[t-2]), w[t-7], s0(w[t-15]), w[t-16])),
              W0, Idx(17, 80))
      Round(s, i) ==
        LET T1 == Add4x5(s[8], S1(s[5]), Ch(s[5], s[6], s[7]), K512[i], W[i])
        IN <<Add4(Add4(T1, S0(s[1])), Maj(s[1], s[2], s[3])), s[1], s[2], s[3],
             Add4(s[4], T1), s[5], s[6], s[7]>>
      r == FoldLeft(Round, h, Idx(1, 80))
  IN [j \in 1..8 |-> Add4(h[j], r[j])]

Compress(alg, h, b, o) ==
  CASE alg = "md5" -> CompressMd5(h, b, o)
    [] alg = "sha1" -> CompressSha1(h, b, o)
    [] alg \in {"sha224", "sha256"} -> CompressSha256(h, b, o)
    [] alg = "sha512" -> CompressSha512(h, b, o)

(* Absorb every whole block of b, starting at chaining value h. *)
AbsorbFrom(alg, h, b) ==
  LET B == BlockSize[alg]
  IN FoldLeft(LAMBDA s, k : Compress(alg, s, b, (k - 1) * B), h, Idx(1, Len(b) \div B))

-----------------------------------------------------------------------------
(* Padding: 0x80, zeros up to LengthSize before a block end, bit length.   *)

Zeros(n) == [i \in 1..n |-> 0]

(* The bit length of a message of `size` bytes (four limbs), as LengthSize bytes. *)
BitLength(alg, size) ==
  LET b  == [i \in 1..4 |-> size[i] * 8]
      w  == Carry4(b[1], b[2], b[3], b[4])
      ov == (b[1] + ((b[2] + ((b[3] + (b[4] \div M)) \div M)) \div M)) \div M
      be == OutBE4(w)
  IN CASE alg = "md5" -> Reverse(be)
       [] alg = "sha512" -> Zeros(7) \o <<ov % 256>> \o be
       [] OTHER -> be

SizeLimbs(n) == <<0, 0, n \div M, n % M>>

(* The padded tail of a message of `size` bytes whose last partial block is t. *)
PadTail(alg, t, size) ==
  LET B == BlockSize[alg]
      L == LengthSize[alg]
      z == (B - ((Len(t) + 1 + L) % B)) % B
  IN t \o <<128>> \o Zeros(z) \o BitLength(alg, size)

Output(alg, h) ==
  LET w == CASE alg = "md5" -> [i \in DOMAIN h |-> OutLE2(h[i])]
             [] alg = "sha512" -> [i \in DOMAIN h |-> OutBE4(h[i])]
             [] OTHER -> [i \in DOMAIN h |-> OutBE2(h[i])]
  IN SubSeq(FlattenSeq(w), 1, DigestSize[alg])

(* Digest of a message of which everything before the tail t is in h. *)
FinishFrom(alg, h, t, size) == Output(alg, AbsorbFrom(alg, h, PadTail(alg, t, size)))

Hash(alg, m) ==
  LET n == Len(m)
      whole == n - (n % BlockSize[alg])
      h == AbsorbFrom(alg, InitialValue[alg], SubSeq(m, 1, whole))
  IN FinishFrom(alg, h, SubSeq(m, whole + 1, n), SizeLimbs(n))

-----------------------------------------------------------------------------
(* HMAC, RFC 2104.                                                         *)

HmacKeyBlock(alg, k) ==
  LET B == BlockSize[alg]
      k0 == IF Len(k) > B THEN Hash(alg, k) ELSE k
  IN k0 \o Zeros(B - Len(k0))
XorByte(s, c) == [i \in DOMAIN s |-> s[i] ^^ c]
Hmac(alg, k, m) ==
  LET kb == HmacKeyBlock(alg, k)
  IN Hash(alg, XorByte(kb, 92) \o Hash(alg, XorByte(kb, 54) \o m))

-----------------------------------------------------------------------------
(* Text forms.                                                             *)

HexDigits == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
Hex(s) == FoldLeft(LAMBDA t, c : t \o HexDigits[Hi(c * 16) + 1] \o HexDigits[(c % 16) + 1], "", s)
=============================================================================
