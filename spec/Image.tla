------------------------------- MODULE Image --------------------------------
(* Database files as they are on disk: which byte sequences must be refused  *)
(* on opening, and what walking through whatever tree they hold may do.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* 32 bit fields are pairs of 16 bit halves.  Sizes of files are far smaller *)
(* than 2^29, so larger values only have to stay larger than every size.     *)
Cap == 536870912
Val(x) == IF x[1] >= 8192 THEN Cap ELSE x[1] * 65536 + x[2]

HeaderSize == 4200
Magic == <<76, 79, 67, 68, 66, 88, 88>>     \* LOCDBXX
MaxSignature == 2048

(* h: what the header of a file of h.size bytes says (zero where it ends)    *)
Within(off, len, size) == Val(off) + Val(len) <= size
MustRefuse(h) ==
    \/ h.size < HeaderSize
    \/ SubSeq(h.magic, 1, 7) # Magic
    \/ h.magic[8] # 1
    \/ h.sig1 > MaxSignature
    \/ h.sig2 > MaxSignature
    \/ ~Within(h.pool[1], h.pool[2], h.size)

OpenOK(h, opened) == /\ MustRefuse(h) => ~opened
                     /\ h.intact => opened

(* ------------------------------------------------- walking through a tree *)
(* A tree is a sequence of nodes <<zero, one, network>>; the root is node 0, *)
(* a child 0 is none.  The bytes may say anything, so that there may be      *)
(* loops, shared nodes and children that do not exist.                       *)
Node(t, n) == t[n + 1]
Exists(t, n) == n < Len(t)

(* One step of the walk: take the top of the stack; skip what has been seen; *)
(* otherwise report its network and put its children on the stack.           *)
(* st: [stack |-> sequence of <<node, depth>>, seen, out, r]                 *)
WalkInit(t) == [stack |-> IF Len(t) = 0 THEN <<>> ELSE << <<0, 0>> >>, seen |-> {}, out |-> <<>>, r |-> "run"]
RECURSIVE PushAll(_, _, _, _, _)
PushAll(t, s, kids, d, W) ==
    IF kids = <<>> THEN [stack |-> s, bad |-> FALSE]
    ELSE LET k == Head(kids) IN
         IF k = 0 THEN PushAll(t, s, Tail(kids), d, W)
         ELSE IF d > W \/ ~Exists(t, k) THEN [stack |-> s, bad |-> TRUE]
         ELSE PushAll(t, Append(s, <<k, d>>), Tail(kids), d, W)
WalkStep(t, nets, W, st) ==
    IF st.stack = <<>> THEN [st EXCEPT !.r = "end"]
    ELSE LET top == st.stack[Len(st.stack)] IN
         IF top[1] \in st.seen THEN [st EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
         ELSE LET n == Node(t, top[1])
                  p == PushAll(t, st.stack, <<n[2], n[1]>>, top[2] + 1, W)
              IN IF p.bad THEN [st EXCEPT !.r = "error"]
                 ELSE IF n[3] >= 0 /\ n[3] >= nets THEN [st EXCEPT !.r = "error"]
                 ELSE [st EXCEPT !.stack = p.stack, !.seen = @ \union {top[1]},
                                 !.out = IF n[3] >= 0 THEN Append(@, <<top[1], top[2]>>) ELSE @]

(* The path of a lookup: at most one node for each bit. *)
RECURSIVE Path(_, _, _)
Path(t, bits, n) ==
    IF bits = <<>> \/ ~Exists(t, n) THEN <<n>>
    ELSE LET k == Node(t, n)[Head(bits) + 1] IN
         IF k = 0 THEN <<n>> ELSE <<n>> \o Path(t, Tail(bits), k)
=============================================================================
