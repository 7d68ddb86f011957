-------------------------------- MODULE Text --------------------------------
(* How addresses and networks are written.  Text is a sequence of character  *)
(* codes.  The grammar is the one of RFC 4291 / inet_pton: dotted quads      *)
(* without leading zeros; eight groups of one to four hexadecimal digits,    *)
(* of which one run of at least one may be left out as "::" and of which the *)
(* last two may be a dotted quad.                                            *)
EXTENDS Nets

No == <<>>                       \* "does not denote anything"

Dot == 46  Slash == 47  Colon == 58  Star == 42
IsDigit(c) == c >= 48 /\ c <= 57
HexVal(c) == IF IsDigit(c) THEN c - 48
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1

Has(s, c) == \E i \in 1..Len(s) : s[i] = c

(* the parts of s between the separators c *)
RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(s, c, i, cur) ==
    IF i > Len(s) THEN <<cur>>
    ELSE IF s[i] = c THEN <<cur>> \o SplitFrom(s, c, i + 1, <<>>)
    ELSE SplitFrom(s, c, i + 1, Append(cur, s[i]))
Split(s, c) == SplitFrom(s, c, 1, <<>>)

RECURSIVE DecVal(_)
DecVal(s) == IF s = <<>> THEN 0 ELSE DecVal(SubSeq(s, 1, Len(s) - 1)) * 10 + (s[Len(s)] - 48)
RECURSIVE HexSeq(_)
HexSeq(s) == IF s = <<>> THEN 0 ELSE HexSeq(SubSeq(s, 1, Len(s) - 1)) * 16 + HexVal(s[Len(s)])

(* a dotted quad as two 16 bit numbers *)
OctetOK(s) == /\ Len(s) \in 1..3 /\ \A i \in 1..Len(s) : IsDigit(s[i])
              /\ (Len(s) > 1 => s[1] # 48) /\ DecVal(s) <= 255
Quad(s) == LET q == Split(s, Dot) IN
           IF Len(q) = 4 /\ \A i \in 1..4 : OctetOK(q[i])
           THEN << DecVal(q[1]) * 256 + DecVal(q[2]), DecVal(q[3]) * 256 + DecVal(q[4]) >>
           ELSE No

GroupOK(s) == Len(s) \in 1..4 /\ \A i \in 1..Len(s) : HexVal(s[i]) >= 0

(* the 16 bit numbers of "a:b:...", <<-1>> when malformed; tail: a dotted quad may end it *)
Groups(s, tail) ==
    IF s = <<>> THEN <<>>
    ELSE LET q == Split(s, Colon)  n == Len(q)  IN
         IF \A i \in 1..n : GroupOK(q[i]) THEN [i \in 1..n |-> HexSeq(q[i])]
         ELSE IF tail /\ (\A i \in 1..(n - 1) : GroupOK(q[i])) /\ Quad(q[n]) # No
              THEN [i \in 1..(n - 1) |-> HexSeq(q[i])] \o Quad(q[n])
         ELSE <<-1>>

ParseV6(s) ==
    LET gaps == { k \in 1..(Len(s) - 1) : s[k] = Colon /\ s[k + 1] = Colon } IN
    IF gaps = {} THEN LET g == Groups(s, TRUE) IN IF Len(g) = 8 THEN g ELSE No
    ELSE IF Cardinality(gaps) > 1 THEN No
    ELSE LET k == CHOOSE k \in gaps : TRUE
             g == Groups(SubSeq(s, 1, k - 1), FALSE)
             h == Groups(SubSeq(s, k + 2, Len(s)), TRUE)
         IN IF g = <<-1>> \/ h = <<-1>> \/ Len(g) + Len(h) > 7 THEN No
            ELSE g \o [i \in 1..(8 - Len(g) - Len(h)) |-> 0] \o h

ParseV4(s) == LET q == Quad(s) IN IF q = No THEN No ELSE <<0, 0, 0, 0, 0, 65535>> \o q

ParseAddr(s) == IF ParseV4(s) # No THEN ParseV4(s) ELSE ParseV6(s)

(* a network: an address, optionally followed by / and a number of bits of the notation's family *)
ParseNet(s) ==
    LET cut == { i \in 1..Len(s) : s[i] = Slash }
        k == IF cut = {} THEN Len(s) + 1 ELSE CHOOSE i \in cut : \A j \in cut : i <= j
        addr == SubSeq(s, 1, k - 1)
        bits == SubSeq(s, k + 1, Len(s))
        a == ParseAddr(addr)
        v4 == ParseV4(addr) # No
        max == IF v4 THEN 32 ELSE 128
        num == IF cut = {} THEN max
               ELSE IF bits = <<>> \/ Len(bits) > 3 \/ \E i \in 1..Len(bits) : ~IsDigit(bits[i]) THEN -1
               ELSE DecVal(bits)
    IN IF a = No \/ num < 0 \/ num > max THEN No
       ELSE LET p == IF v4 THEN 96 + num ELSE num IN [a |-> First(a, p), p |-> p]

(* Text of a network: denotes it by its first address, and IPv4 is written as IPv4 *)
ShowsNet(s, n) == /\ ParseNet(s) = [a |-> n.a, p |-> n.p]
                  /\ Has(s, Slash)
                  /\ ParseAddr(Split(s, Slash)[1]) = n.a
                  /\ FamOf(n) = 4 => ~Has(s, Colon)
ShowsAddr(s, x) == ParseAddr(s) = x /\ (IsMapped(x) => ~Has(s, Colon))

(* --------------------------------------------------- reverse pointers *)
Decimal(v) == IF v < 10 THEN <<48 + v>>
              ELSE IF v < 100 THEN <<48 + (v \div 10), 48 + (v % 10)>>
              ELSE <<48 + (v \div 100), 48 + ((v \div 10) % 10), 48 + (v % 10)>>
HexDigit(v) == IF v < 10 THEN 48 + v ELSE 87 + v

Octet(a, i)  == LET d == a[6 + (i \div 2) + 1] IN IF i % 2 = 0 THEN d \div 256 ELSE d % 256       \* of an IPv4 address
Nibble(a, i) == (a[(i \div 4) + 1] \div P2[12 - 4 * (i % 4)]) % 16

RECURSIVE Labels(_, _, _)
Labels(n, i, v4) == IF i < 0 THEN <<>>
                    ELSE (IF v4 THEN Decimal(Octet(n.a, i)) ELSE <<HexDigit(Nibble(n.a, i))>>)
                         \o <<Dot>> \o Labels(n, i - 1, v4)
ReverseOK(n) == IF FamOf(n) = 4 THEN n.p % 8 = 0 ELSE n.p % 4 = 0
ReverseName(n, suffix) ==
    LET v4 == FamOf(n) = 4
        cnt == IF v4 THEN (n.p - 96) \div 8 ELSE n.p \div 4
    IN (IF n.p < 128 THEN <<Star, Dot>> ELSE <<>>) \o Labels(n, cnt - 1, v4) \o suffix
=============================================================================
