------------------------------- MODULE MC_Dns -------------------------------
(* The calendar of Dns against counting days one by one.                     *)
EXTENDS Dns
VARIABLES y, m, d, n
vars == <<y, m, d, n>>
Init == y = 1970 /\ m = 1 /\ d = 1 /\ n = 0
Next == /\ y < 2200
        /\ n' = n + 1
        /\ IF d < MonthLen(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
           ELSE d' = 1 /\ (IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1)
Spec == Init /\ [][Next]_vars
Calendar == DayNo(y, m, d) = n
(* a text made from the date means this day *)
Dig(k) == 48 + k
Make == Days[((n + 4) % 7) + 1] \o <<44, 32, Dig(d \div 10), Dig(d % 10), 32>> \o Months[m] \o
        <<32, Dig(y \div 1000), Dig((y \div 100) % 10), Dig((y \div 10) % 10), Dig(y % 10), 32,
          50, 51, 58, 53, 57, 58, 48, 48 + (n % 10), 32, 71, 77, 84>>
Readable == Text(Make) = [k |-> "time", day |-> n, sec |-> 86340 + (n % 10)]
=============================================================================
