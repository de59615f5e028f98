------------------------------- MODULE XNames -------------------------------
(***************************************************************************)
(* File names.  A name is a sequence of Unicode code points; on disk it is *)
(* a sequence of Windows-1252 bytes.  Names are ordered by their code      *)
(* points after folding ASCII lower case to upper case; two names that     *)
(* compare equal name the same entry.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Upper(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Lower(c) == IF c >= 65 /\ c <= 90  THEN c + 32 ELSE c

Fold(n) == [i \in 1..Len(n) |-> Upper(n[i])]

\* -1, 0, 1: the order every reader and writer of a directory must agree on
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
  ELSE IF i > Len(b) THEN 1
  ELSE IF Upper(a[i]) = Upper(b[i]) THEN CmpFrom(a, b, i + 1)
  ELSE IF Upper(a[i]) < Upper(b[i]) THEN -1 ELSE 1
Cmp(a, b) == CmpFrom(a, b, 1)

SameName(a, b) == Cmp(a, b) = 0

(* Windows-1252 as the WHATWG encoding standard has it: bytes 0x80..0x9f   *)
(* map to these code points, every other byte to itself.                   *)
C1 == << 8364, 129, 8218, 402, 8222, 8230, 8224, 8225, 710, 8240, 352, 8249, 338, 141, 381, 143,
         144, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 732, 8482, 353, 8250, 339, 157, 382, 376 >>

DecByte(b) == IF b >= 128 /\ b <= 159 THEN C1[b - 127] ELSE b
Decode(bs) == [i \in 1..Len(bs) |-> DecByte(bs[i])]

C1Set == {C1[i] : i \in 1..Len(C1)}
EncodableCp(c) == (c >= 0 /\ c <= 127) \/ (c >= 160 /\ c <= 255) \/ c \in C1Set
EncCp(c) == IF c <= 127 \/ (c >= 160 /\ c <= 255) THEN c
            ELSE 127 + (CHOOSE i \in 1..Len(C1) : C1[i] = c)
Encodable(n) == \A i \in 1..Len(n) : EncodableCp(n[i])
Encode(n) == [i \in 1..Len(n) |-> EncCp(n[i])]

(* A name the format can hold needs one byte per character, 255 at most.   *)
NameOk(n)  == /\ Len(n) >= 1
              /\ Len(n) <= 255
              /\ Encodable(n)
NameBad(n) == Len(n) > 255 \/ ~Encodable(n)

Pad4(x) == ((x + 3) \div 4) * 4

\* length of a directory entry on disk: 14 byte header, name, padding
DirentLen(nameBytes) == Pad4(14 + nameBytes)
=============================================================================
