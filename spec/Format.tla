------------------------------- MODULE Format -------------------------------
(* The file format, version 1: what the bytes of a database file mean.  It   *)
(* is fixed: files are read by every library that is installed anywhere and  *)
(* are written by other programs.  All numbers are big endian.               *)
(*                                                                           *)
(* A file is [size, pages]: its bytes in pages of 4096, from which trailing  *)
(* zeros may have been left out.  Of a large file with wide gaps it is       *)
(* [size, pages, far]: the first pages and those further away that are not   *)
(* empty, by their number.                                                   *)
(*                                                                           *)
(*   0 LOCDBXX, 7 version, 8 time of creation (64 bits), 16 vendor,          *)
(*   20 description, 24 license (places in the pool), 28 ASes, 36 networks,  *)
(*   44 tree, 52 countries, 60 pool (offset and length in bytes each),       *)
(*   68 and 70 lengths of the signatures, 72 and 2120 the signatures,        *)
(*   4168 32 reserved bytes; the sections follow, each on a page of its own  *)
EXTENDS Nets, Json, IOUtils, TLC

PageSize   == 4096
HeaderLen  == 4200
MagicBytes == <<76, 79, 67, 68, 66, 88, 88>>
SigMax     == 2048

Chr == JsonDeserialize(IOEnv.CHARS)          \* the characters 1..255

(* ------------------------------------------------------------- reading *)
Page(f, n) == IF n < Len(f.pages) THEN f.pages[n + 1]
              ELSE IF ToString(n) \in DOMAIN f.far THEN f.far[ToString(n)] ELSE <<>>
Byte(f, o) == LET p == Page(f, o \div PageSize) i == (o % PageSize) + 1 IN
              IF i > Len(p) THEN 0 ELSE p[i]
U16(f, o) == Byte(f, o) * 256 + Byte(f, o + 1)
U32(f, o) == <<U16(f, o), U16(f, o + 2)>>
U64(f, o) == <<U16(f, o), U16(f, o + 2), U16(f, o + 4), U16(f, o + 6)>>

(* numbers that have to be small are capped *)
Huge == 536870912
Num(x) == IF x[1] >= 8192 THEN Huge ELSE x[1] * 65536 + x[2]

Sec(f, o) == [off |-> Num(U32(f, o)), len |-> Num(U32(f, o + 4))]
ASes(f)  == Sec(f, 28)
NetData(f) == Sec(f, 36)
Tree(f)  == Sec(f, 44)
Cts(f)   == Sec(f, 52)
Pool(f)  == Sec(f, 60)
NoNet(x) == x = <<65535, 65535>>

RECURSIVE BytesAt(_, _), TextAt(_, _)
BytesAt(f, o) == IF Byte(f, o) = 0 THEN <<>> ELSE <<Byte(f, o)>> \o BytesAt(f, o + 1)
TextAt(f, o)  == IF Byte(f, o) = 0 THEN "" ELSE Chr[Byte(f, o)] \o TextAt(f, o + 1)
PoolAt(f, o)  == Pool(f).off + Num(U32(f, o))
Two(f, o) == IF Byte(f, o) = 0 THEN "" ELSE IF Byte(f, o + 1) = 0 THEN Chr[Byte(f, o)]
             ELSE Chr[Byte(f, o)] \o Chr[Byte(f, o + 1)]

AsRec(f, i) == LET o == ASes(f).off + 8 * i IN
               [n |-> U32(f, o), name |-> TextAt(f, PoolAt(f, o + 4)), chars |-> BytesAt(f, PoolAt(f, o + 4))]
CtRec(f, i) == LET o == Cts(f).off + 8 * i IN
               [code |-> Two(f, o), cont |-> Two(f, o + 2), name |-> TextAt(f, PoolAt(f, o + 4)), k |-> U16(f, o)]
NetRec(f, i, a, p) == LET o == NetData(f).off + 12 * i IN
               [a |-> a, p |-> p, cc |-> Two(f, o), asn |-> U32(f, o + 4), fl |-> U16(f, o + 8)]

(* the networks below a node: the path to it is their address *)
RECURSIVE Below(_, _, _, _)
Below(f, n, a, d) ==
    LET o == Tree(f).off + 12 * n  z == Num(U32(f, o))  e == Num(U32(f, o + 4))  x == U32(f, o + 8) IN
    (IF NoNet(x) THEN {} ELSE { NetRec(f, Num(x), a, d) })
    \union (IF z = 0 THEN {} ELSE Below(f, z, a, d + 1))
    \union (IF e = 0 THEN {} ELSE Below(f, e, SetBit(a, d), d + 1))

Decode(f) == [ nets |-> IF Tree(f).len = 0 THEN {} ELSE Below(f, 0, Zero, 0),
               ases |-> { AsRec(f, i) : i \in 0..((ASes(f).len \div 8) - 1) },
               cts  |-> { CtRec(f, i) : i \in 0..((Cts(f).len \div 8) - 1) },
               vendor |-> TextAt(f, PoolAt(f, 16)), description |-> TextAt(f, PoolAt(f, 20)),
               license |-> TextAt(f, PoolAt(f, 24)), created |-> U64(f, 8) ]

(* ------------------------------------------------- well-formed files *)
Fits(f, s, unit) == s.off + s.len <= f.size /\ s.len % unit = 0
Ends(f, o) == /\ Num(U32(f, o)) < Pool(f).len
              /\ LET RECURSIVE E(_)
                     E(k) == k < Pool(f).len /\ (Byte(f, Pool(f).off + k) = 0 \/ E(k + 1))
                 IN E(Num(U32(f, o)))

(* every node is one of the tree's and has a network that exists; d: its depth *)
RECURSIVE TreeOK(_, _, _)
TreeOK(f, n, d) ==
    /\ d <= AW
    /\ 12 * n < Tree(f).len
    /\ LET o == Tree(f).off + 12 * n  z == Num(U32(f, o))  e == Num(U32(f, o + 4))  x == U32(f, o + 8) IN
       /\ (NoNet(x) \/ (12 * Num(x) < NetData(f).len))
       /\ (z = 0 \/ TreeOK(f, z, d + 1))
       /\ (e = 0 \/ TreeOK(f, e, d + 1))
RECURSIVE Reached(_, _)
Reached(f, n) == LET o == Tree(f).off + 12 * n  z == Num(U32(f, o))  e == Num(U32(f, o + 4)) IN
                 1 + (IF z = 0 THEN 0 ELSE Reached(f, z)) + (IF e = 0 THEN 0 ELSE Reached(f, e))

Legal(f) ==
    /\ f.size >= HeaderLen
    /\ [i \in 1..7 |-> Byte(f, i - 1)] = MagicBytes
    /\ Byte(f, 7) = 1
    /\ Fits(f, ASes(f), 8) /\ Fits(f, NetData(f), 12) /\ Fits(f, Tree(f), 12) /\ Fits(f, Cts(f), 8) /\ Fits(f, Pool(f), 1)
    /\ U16(f, 68) <= SigMax /\ U16(f, 70) <= SigMax
    /\ \A o \in {16, 20, 24} : Ends(f, o)
    /\ \A i \in 0..((ASes(f).len \div 8) - 1) : Ends(f, ASes(f).off + 8 * i + 4)
    /\ \A i \in 0..((Cts(f).len \div 8) - 1) : Ends(f, Cts(f).off + 8 * i + 4)
    \* found by bisection
    /\ \A i \in 1..((ASes(f).len \div 8) - 1) :
         LET x == U32(f, ASes(f).off + 8 * i - 8) y == U32(f, ASes(f).off + 8 * i) IN
         x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
    /\ \A i \in 1..((Cts(f).len \div 8) - 1) : U16(f, Cts(f).off + 8 * i - 8) < U16(f, Cts(f).off + 8 * i)
    /\ (Tree(f).len = 0 \/ (TreeOK(f, 0, 0) /\ Reached(f, 0) <= Tree(f).len \div 12))

(* What a writer produces: also, sections on pages of their own (they used   *)
(* to be mapped one by one), nothing in what is reserved or unused.          *)
Secs(f) == { ASes(f), NetData(f), Tree(f), Cts(f), Pool(f) }
Written(f) ==
    /\ Legal(f)
    /\ \A s \in Secs(f) : s.len > 0 => (s.off >= HeaderLen /\ s.off % PageSize = 0)
    /\ \A s, t \in Secs(f) : (s # t /\ s.len > 0 /\ t.len > 0) => (s.off + s.len <= t.off \/ t.off + t.len <= s.off)
    /\ \A o \in 4168..4199 : Byte(f, o) = 0
    /\ \A i \in 0..((NetData(f).len \div 12) - 1) :
         LET o == NetData(f).off + 12 * i IN U16(f, o + 2) = 0 /\ U16(f, o + 10) = 0
    /\ \A o \in (72 + U16(f, 68))..2119 : Byte(f, o) = 0
    /\ \A o \in (2120 + U16(f, 70))..4167 : Byte(f, o) = 0

(* ------------------------------------------------------------- writing *)
(* Some of the ways to write the content c (names and metadata are sequences *)
(* of bytes here).  lay: order of the sections; tree: order of the nodes;    *)
(* share: one record for equal networks; tail: share endings of strings;     *)
(* gap: pages left free before the sections; junk: what readers ignore.      *)
B16(v) == <<v \div 256, v % 256>>
B32(v) == <<0, v \div 65536, (v \div 256) % 256, v % 256>>
B32p(x) == B16(x[1]) \o B16(x[2])
B64(x) == B16(x[1]) \o B16(x[2]) \o B16(x[3]) \o B16(x[4])
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1]
          ELSE LET h == Len(q) \div 2 IN Cat(SubSeq(q, 1, h)) \o Cat(SubSeq(q, h + 1, Len(q)))
IndexOf(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x
Zeros(n) == [i \in 1..n |-> 0]
EndsWith(s, t) == Len(t) <= Len(s) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
=============================================================================
