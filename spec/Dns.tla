-------------------------------- MODULE Dns ---------------------------------
(* Version discovery: the meaning of a DNS reply.  A reply is a sequence of  *)
(* bytes; Meaning says what a caller has to be told: a time (days since 1970 *)
(* and seconds of the day), "err", or "any" where the reply is so odd that   *)
(* nothing is promised except that nothing bad happens.                      *)
EXTENDS Integers, Sequences, FiniteSets

Any == [k |-> "any"]
Err == [k |-> "err"]

U16(b, i) == b[i] * 256 + b[i + 1]          \* i counts from 1

(* -------------------------------------------------------------- names *)
(* Walks a name at position i (from 1).  Returns the position after it, -1   *)
(* for a name that cannot be read and -2 if that depends on the reader.      *)
(* len: upper bound of the length of its text so far, hops: pointers taken   *)
NameSure == 125                             \* every reader takes names of this length
NameMax == 255                              \* and none may take longer ones
RECURSIVE Name(_, _, _, _, _, _)
Name(b, i, end, lo, hi, hops) ==
    IF i > Len(b) THEN -1
    ELSE LET c == b[i] IN
    IF c = 0 THEN (IF lo > NameMax + 1 THEN -1 ELSE IF hi > NameSure THEN -2 ELSE IF end > 0 THEN end ELSE i + 1)
    ELSE IF c < 64
    THEN IF i + c >= Len(b) THEN -1
         ELSE LET plain == \A j \in (i + 1)..(i + c) : b[j] \in (48..57) \union (65..90) \union (97..122) \union {45, 95}
              IN IF hi > 2000 THEN -1
                 ELSE Name(b, i + c + 1, end, lo + c + 1, hi + (IF plain THEN c + 1 ELSE 4 * c + 1), hops)
    ELSE IF c < 192 THEN -1
    ELSE IF i + 1 > Len(b) THEN -1
    ELSE IF hops > Len(b) THEN -1
    ELSE LET to == (c - 192) * 256 + b[i + 1] + 1 IN
         IF to > Len(b) THEN -1
         ELSE Name(b, to, IF end > 0 THEN end ELSE i + 2, lo, hi, hops + 1)
NameAt(b, i) == Name(b, i, 0, 0, 0, 0)

(* -------------------------------------------------------------- times *)
(* texts are sequences of character codes *)
Days   == << <<83,117,110>>, <<77,111,110>>, <<84,117,101>>, <<87,101,100>>, <<84,104,117>>, <<70,114,105>>, <<83,97,116>> >>
Months == << <<74,97,110>>, <<70,101,98>>, <<77,97,114>>, <<65,112,114>>, <<77,97,121>>, <<74,117,110>>, <<74,117,108>>,
             <<65,117,103>>, <<83,101,112>>, <<79,99,116>>, <<78,111,118>>, <<68,101,99>> >>
Num(t, i, j) == LET RECURSIVE N(_, _)
                    N(k, a) == IF k > j THEN a ELSE N(k + 1, a * 10 + (t[k] - 48))
                IN N(i, 0)
IsNum(t, i, j) == \A k \in i..j : t[k] \in 48..57
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] OTHER -> 31
(* days before a date *)
DayNo(y, m, d) ==
    LET yy == y - 1
        RECURSIVE Before(_)
        Before(k) == IF k = 1 THEN 0 ELSE MonthLen(y, k - 1) + Before(k - 1)
    IN (365 * (y - 1970)) + ((yy \div 4) - (1969 \div 4)) - ((yy \div 100) - (1969 \div 100)) + ((yy \div 400) - (1969 \div 400))
       + Before(m) + (d - 1)

(* Www, dd Mon yyyy hh:mm:ss GMT *)
Canonical(t) ==
    /\ Len(t) = 29
    /\ \E k \in 1..7 : SubSeq(t, 1, 3) = Days[k]
    /\ t[4] = 44 /\ t[5] = 32 /\ IsNum(t, 6, 7) /\ t[8] = 32
    /\ \E k \in 1..12 : SubSeq(t, 9, 11) = Months[k]
    /\ t[12] = 32 /\ IsNum(t, 13, 16) /\ t[17] = 32
    /\ IsNum(t, 18, 19) /\ t[20] = 58 /\ IsNum(t, 21, 22) /\ t[23] = 58 /\ IsNum(t, 24, 25)
    /\ SubSeq(t, 26, 29) = <<32, 71, 77, 84>>
Time(t) ==
    LET y == Num(t, 13, 16)  d == Num(t, 6, 7)
        m == CHOOSE k \in 1..12 : SubSeq(t, 9, 11) = Months[k]
        w == CHOOSE k \in 1..7 : SubSeq(t, 1, 3) = Days[k]
        hh == Num(t, 18, 19)  mm == Num(t, 21, 22)  ss == Num(t, 24, 25)
    IN IF y < 1970 \/ d \notin 1..MonthLen(y, m) \/ hh > 23 \/ mm > 59 \/ ss > 59 THEN Any
       ELSE LET n == DayNo(y, m, d) IN
            IF (n + 4) % 7 # w - 1 THEN Any          \* not that day of the week
            ELSE [k |-> "time", day |-> n, sec |-> (hh * 3600) + (mm * 60) + ss]
Count(t, c) == Cardinality({ i \in 1..Len(t) : t[i] = c })
NotATime(t) ==
    \/ Len(t) < 20
    \/ SubSeq(t, Len(t) - 2, Len(t)) # <<71, 77, 84>>
    \/ Count(t, 58) # 2 \/ Count(t, 44) # 1
    \/ \E i \in 1..Len(t) : t[i] \notin (48..57) \union (65..90) \union (97..122) \union (9..13) \union {32, 44, 58}
(* how a text with a NUL byte is read is not said *)
Text(t) == IF Canonical(t) THEN Time(t) ELSE IF \E i \in 1..Len(t) : t[i] = 0 THEN Any ELSE IF NotATime(t) THEN Err ELSE Any

(* ------------------------------------------------------------ replies *)
TXT == 16
CNAME == 5
RECURSIVE Answer(_, _)
Answer(b, i) ==
    LET j == NameAt(b, i) IN
    IF j = -2 THEN Any
    ELSE IF j = -1 \/ j + 9 > Len(b) THEN Err
    ELSE LET type == U16(b, j)  class == U16(b, j + 2)  n == U16(b, j + 8)  p == j + 10 IN
         IF p + n - 1 > Len(b) THEN Err
         ELSE IF class # 1 THEN Any
         ELSE IF type = CNAME THEN Answer(b, p + n)
         ELSE IF type # TXT \/ n = 0 THEN Err
         ELSE IF b[p] = 0 \/ b[p] >= n THEN Err
         ELSE Text(SubSeq(b, p + 1, p + b[p]))

(* the header of a plain successful reply: one question and some answers *)
PlainHeader(b) == /\ b[3] \div 128 = 1 /\ (b[3] \div 2) % 2 = 0 /\ b[4] % 16 = 0
                  /\ U16(b, 5) = 1 /\ U16(b, 7) > 0
Meaning(b, limit) ==
    IF Len(b) > limit THEN Err                       \* has been cut
    ELSE IF Len(b) < 13 THEN (IF Len(b) < 12 THEN Any ELSE Err)
    ELSE IF ~PlainHeader(b) THEN Any
    ELSE LET j == NameAt(b, 13) IN
         IF j = -2 THEN Any
         ELSE IF j = -1 \/ j + 3 > Len(b) THEN Err
         ELSE IF U16(b, j) # TXT THEN Err
         ELSE IF U16(b, j + 2) # 1 THEN Any
         ELSE Answer(b, j + 4)
=============================================================================
