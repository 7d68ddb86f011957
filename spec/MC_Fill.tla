------------------------------- MODULE MC_Fill ------------------------------
(* The filler's numbering in TraceBig: walking from block to block in the    *)
(* order of addresses and prefixes gives the k-th block, and hosts are where *)
(* HostPos says.                                                             *)
EXTENDS TraceBig
CONSTANT Top
VARIABLES k, off, p
fvars == <<k, off, p>>
FInit == k = 0 /\ off = 0 /\ p = Top
(* trailing zero digits of an offset *)
Zeros(o) == IF o % 16 # 0 THEN 0 ELSE IF o % 256 # 0 THEN 1 ELSE IF o % 4096 # 0 THEN 2 ELSE IF o % 65536 # 0 THEN 3
            ELSE IF o % 1048576 # 0 THEN 4 ELSE 5
FNext == /\ k < Size(Top) - 1 /\ k' = k + 1
         /\ IF p < 128 THEN p' = p + 4 /\ off' = off ELSE off' = off + 1 /\ p' = 128 - (4 * Zeros(off + 1))
FStart == FInit /\ tid = 1 /\ l = 1 /\ ok = TRUE /\ nets = {} /\ fill = [n |-> 0]
FSpec == FStart /\ [][FNext /\ UNCHANGED vars]_<<fvars, vars>>
Numbered == Nth(k, 0, Top) = <<off, p>>
Hosts == p = 128 => HostPos(off, Top) = k
=============================================================================
