--------------------------------- MODULE MC_AES -------------------------------
(***************************************************************************)
(* The specification's AES against the published vectors (FIPS 197 C.1,    *)
(* SP 800-38A F.4.1 for output feedback and F.5.1 for counter mode), and   *)
(* the carries of the counter.                                             *)
(***************************************************************************)
EXTENDS AES

VARIABLE x

K197 == [i \in 1 .. 16 |-> i - 1]
P197 == [i \in 1 .. 16 |-> 17 * (i - 1)]
C197 == << 105, 196, 224, 216, 106, 123, 4, 48, 216, 205, 183, 128, 112, 180, 197, 90 >>
FIPS197 == EncryptBlock(KeySchedule(K197), P197) = C197

K38 == << 43, 126, 21, 22, 40, 174, 210, 166, 171, 247, 21, 136, 9, 207, 79, 60 >>
Ctr38 == [i \in 1 .. 16 |-> 239 + i]
P38 == << 107, 193, 190, 226, 46, 64, 159, 150, 233, 61, 126, 17, 115, 147, 23, 42,
          174, 45, 138, 87, 30, 3, 172, 156, 158, 183, 111, 172, 69, 175, 142, 81 >>
C38 == << 135, 77, 97, 145, 182, 32, 227, 38, 27, 239, 104, 100, 153, 13, 182, 206,
          152, 6, 246, 107, 121, 112, 253, 255, 134, 23, 24, 123, 185, 255, 253, 255 >>
SP38CTR == XorBytes(P38, CtrStream(K38, Ctr38, 0, 32)) = C38
\* Output feedback with zero IV: the second block is the encryption of the first.
OFB == LET s == OfbStream(K38, 32)
           zero == [i \in 1 .. 16 |-> 0]
       IN  /\ SubSeq(s, 1, 16) = EncryptBlock(KeySchedule(K38), zero)
           /\ SubSeq(s, 17, 32) = EncryptBlock(KeySchedule(K38), SubSeq(s, 1, 16))
Ff == [i \in 1 .. 16 |-> 255]
Carries ==
  /\ CounterBlock(Ff, 0) = Ff
  /\ CounterBlock(Ff, 1) = [i \in 1 .. 16 |-> 0]
  /\ CounterBlock(Ff, 258) = [i \in 1 .. 16 |-> IF i = 16 THEN 1 ELSE IF i = 15 THEN 1 ELSE 0]
  /\ CounterBlock([Ff EXCEPT ![1] = 7], 1) = [i \in 1 .. 16 |-> IF i = 1 THEN 8 ELSE 0]
\* However the stream is cut, it is the same stream.
Cuts ==
  LET whole == CtrStream(K38, Ff, 0, 70)
  IN  \A from \in 0 .. 40 : \A len \in {0, 1, 2, 15, 16, 17, 30} :
        CtrStream(K38, Ff, from, len) = SubSeq(whole, from + 1, from + len)

Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
===============================================================================
