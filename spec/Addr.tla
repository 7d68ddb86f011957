-------------------------------- MODULE Addr --------------------------------
(* Addresses, CIDR blocks and the two address families of libloc.            *)
(*                                                                           *)
(* An address is a sequence of ND digits of DB bits each, most significant   *)
(* first.  libloc keeps every address as a 128 bit IPv6 address and maps     *)
(* IPv4 into ::ffff:0:0/96, so the real system is ND = 8, DB = 16,           *)
(* MapPfx = <<0,0,0,0,0,65535>>.  The exhaustive models use single-bit       *)
(* digits and a short mapped prefix, which keeps the structure (one tree,    *)
(* one family inside the other) and makes the space finite and small.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS ND, DB, MapPfx

AW     == ND * DB                 \* address width in bits
MapLen == Len(MapPfx) * DB        \* length of the prefix of the IPv4 space

RECURSIVE PowRec(_)
PowRec(k) == IF k = 0 THEN 1 ELSE 2 * PowRec(k - 1)
P2 == [k \in 0..16 |-> PowRec(k)]
DMax == P2[DB] - 1                \* largest digit

(* how many of the first p bits lie in digit i *)
BitsIn(p, i) == IF p >= i * DB THEN DB
                ELSE IF p <= (i - 1) * DB THEN 0
                ELSE p - (i - 1) * DB

Keep(d, k) == d - (d % P2[DB - k])       \* the top k bits of a digit

First(a, p) == [i \in 1..ND |-> Keep(a[i], BitsIn(p, i))]
Last(a, p)  == [i \in 1..ND |-> Keep(a[i], BitsIn(p, i)) + P2[DB - BitsIn(p, i)] - 1]

Zero == [i \in 1..ND |-> 0]
Ones == [i \in 1..ND |-> DMax]

(* bit number k of an address, 0 is the most significant *)
Bit(a, k) == (a[(k \div DB) + 1] \div P2[DB - 1 - (k % DB)]) % 2
SetBit(a, k) == [a EXCEPT ![(k \div DB) + 1] =
                   IF Bit(a, k) = 1 THEN @ ELSE @ + P2[DB - 1 - (k % DB)]]

RECURSIVE LtFrom(_, _, _)
LtFrom(a, b, i) == IF i > ND THEN FALSE
                   ELSE IF a[i] < b[i] THEN TRUE
                   ELSE IF a[i] > b[i] THEN FALSE
                   ELSE LtFrom(a, b, i + 1)
Lt(a, b)  == LtFrom(a, b, 1)
Leq(a, b) == a = b \/ Lt(a, b)

(* the next address; the successor of the last address is <<>> *)
RECURSIVE SuccFrom(_, _)
SuccFrom(a, i) == IF i = 0 THEN <<>>
                  ELSE IF a[i] < DMax THEN [a EXCEPT ![i] = @ + 1]
                  ELSE SuccFrom([a EXCEPT ![i] = 0], i - 1)
Succ(a) == SuccFrom(a, ND)

IsMapped(a) == \A i \in 1..Len(MapPfx) : a[i] = MapPfx[i]
FamilyOf(a) == IF IsMapped(a) THEN 4 ELSE 6

MapFirst == [i \in 1..ND |-> IF i <= Len(MapPfx) THEN MapPfx[i] ELSE 0]
MapLast  == [i \in 1..ND |-> IF i <= Len(MapPfx) THEN MapPfx[i] ELSE DMax]

(* All addresses; only used in the exhaustive models (DB = 1). *)
AllAddr == [1..ND -> 0..DMax]

(* Every block; only used in the exhaustive models. *)
AllBlocks == { [a |-> First(x, p), p |-> p] : x \in AllAddr, p \in 0..AW }
=============================================================================
