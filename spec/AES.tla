---------------------------------- MODULE AES ---------------------------------
(***************************************************************************)
(* AES-128 (FIPS 197), its counter mode (the keyed generator's stream) and *)
(* its output feedback mode with zero IV (the encryption inside SSMS).     *)
(* Blocks and keys are sequences of 16 bytes.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

\* Exclusive or of bytes (left associative, which ^^ is not).
a \odot b == a ^^ b

AXTime(a) == IF a >= 128 THEN (2 * a) \odot 283 ELSE 2 * a
RECURSIVE AMul(_, _)
AMul(a, b) == IF b = 0 THEN 0 ELSE (IF b % 2 = 1 THEN a ELSE 0) \odot AMul(AXTime(a), b \div 2)

\* Powers of the generator 3 of GF(2^8)/0x11b, for inverses.
APow == FoldLeft(LAMBDA acc, i : Append(acc, AXTime(acc[Len(acc)]) \odot acc[Len(acc)]),
                 <<1>>, [i \in 1 .. 254 |-> i])
ALog == [a \in 1 .. 255 |-> CHOOSE i \in 0 .. 254 : APow[i + 1] = a]
AInv(a) == IF a = 0 THEN 0 ELSE APow[((255 - ALog[a]) % 255) + 1]

RotL8(a, r) == ((a * (2^r)) % 256) + (a \div (2^(8 - r)))
\* Tables are sequences (index: byte + 1): TLC looks those up in constant time.
Table(F(_)) == FoldLeft(LAMBDA acc, i : Append(acc, F(i - 1)), << >>, [i \in 1 .. 256 |-> i])
Affine(b) == b \odot RotL8(b, 1) \odot RotL8(b, 2) \odot RotL8(b, 3) \odot RotL8(b, 4) \odot 99
SBoxSeq == Table(LAMBDA a : Affine(AInv(a)))
S2Seq == Table(LAMBDA a : AXTime(SBoxSeq[a + 1]))                      \* 2 * SBox
S3Seq == Table(LAMBDA a : AXTime(SBoxSeq[a + 1]) \odot SBoxSeq[a + 1])    \* 3 * SBox
SBox(a) == SBoxSeq[a + 1]
S2(a) == S2Seq[a + 1]
S3(a) == S3Seq[a + 1]

XorBytes(a, b) == TLCEval([i \in 1 .. Len(a) |-> a[i] \odot b[i]])

Rcon == <<1, 2, 4, 8, 16, 32, 64, 128, 27, 54>>

\* Round keys: a sequence of 11 blocks.
KeySchedule(key) ==
  FoldLeft(LAMBDA acc, r :
      LET p == acc[Len(acc)]
          t == << SBox(p[14]) \odot Rcon[r], SBox(p[15]), SBox(p[16]), SBox(p[13]) >>
          w0 == TLCEval([i \in 1 .. 4 |-> p[i] \odot t[i]])
          w1 == TLCEval([i \in 1 .. 4 |-> p[4 + i] \odot w0[i]])
          w2 == TLCEval([i \in 1 .. 4 |-> p[8 + i] \odot w1[i]])
          w3 == TLCEval([i \in 1 .. 4 |-> p[12 + i] \odot w2[i]])
      IN  Append(acc, w0 \o w1 \o w2 \o w3),
    << key >>, [r \in 1 .. 10 |-> r])

\* Byte i of a block is row (i-1)%4, column (i-1)\div 4.  Src[i][d+1] is the index of
\* the byte that ShiftRows moves to row (row of i + d), column of i.
Src == [i \in 1 .. 16 |-> [d \in 1 .. 4 |->
          LET r == ((i - 1) + (d - 1)) % 4
              c == (i - 1) \div 4
          IN  (((c + r) % 4) * 4) + r + 1]]

\* SubBytes, ShiftRows, MixColumns and AddRoundKey.
Round(s, k) ==
  TLCEval([i \in 1 .. 16 |->
     S2(s[Src[i][1]]) \odot S3(s[Src[i][2]]) \odot SBox(s[Src[i][3]]) \odot SBox(s[Src[i][4]])
       \odot k[i]])
\* The last round has no MixColumns.
LastRound(s, k) == TLCEval([i \in 1 .. 16 |-> SBox(s[Src[i][1]]) ^^ k[i]])

EncryptBlock(ks, block) ==
  LastRound(FoldLeft(LAMBDA s, r : Round(s, ks[r + 1]), XorBytes(block, ks[1]),
                     [r \in 1 .. 9 |-> r]),
            ks[11])

\* Counter block number n for the given IV (big-endian addition, wrapping).
CounterBlock(iv, n) ==
  LET step(acc, i) ==      \* acc = <<carry, bytes so far>>; i runs 16 downto 1
        LET v == iv[i] + acc[1] IN << v \div 256, << v % 256 >> \o acc[2] >>
  IN  FoldLeft(LAMBDA acc, i : step(acc, i), << n, << >> >>, [i \in 1 .. 16 |-> 17 - i])[2]

\* len bytes of the counter mode keystream starting at byte position from (0-based).
CtrStream(key, iv, from, len) ==
  IF len = 0 THEN << >>
  ELSE LET ks == KeySchedule(key)
           first == from \div 16
           last == (from + len - 1) \div 16
           blocks == TLCEval([b \in 1 .. (last - first + 1) |->
                        EncryptBlock(ks, CounterBlock(iv, first + b - 1))])
       IN  TLCEval([i \in 1 .. len |->
             LET p == from + i - 1 - 16 * first IN blocks[(p \div 16) + 1][(p % 16) + 1]])

\* Output feedback mode, zero IV: the same operation encrypts and decrypts.
OfbStream(key, len) ==
  LET ks == KeySchedule(key)
      zero == [i \in 1 .. 16 |-> 0]
      blocks == FoldLeft(LAMBDA acc, b :
                    Append(acc, EncryptBlock(ks, IF b = 1 THEN zero ELSE acc[b - 1])),
                  << >>, [b \in 1 .. ((len + 15) \div 16) |-> b])
  IN  TLCEval([i \in 1 .. len |-> blocks[((i - 1) \div 16) + 1][((i - 1) % 16) + 1]])

Ofb(key, text) == XorBytes(text, OfbStream(key, Len(text)))
=============================================================================
