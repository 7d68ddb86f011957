------------------------------ MODULE MC_Image ------------------------------
(* All trees of up to N nodes that a file may hold, however broken: the walk *)
(* always ends, its stack is bounded by the length of an address, and        *)
(* nothing is reported twice.  The trees are printed for replay.             *)
EXTENDS Image, IOUtils

N == atoi(IOEnv.IMAGE_NODES)
W == 3                 \* bits of an address
NETS == 1              \* network records
VARIABLES tree, st
vars == <<tree, st>>

Init == /\ tree \in UNION { [1..n -> (0..n) \X (0..n) \X {-1, 0, NETS}] : n \in 0..N }
        /\ st = WalkInit(tree)
Next == st.r = "run" /\ st' = WalkStep(tree, NETS, W, st) /\ UNCHANGED tree
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

StackBound == Len(st.stack) <= 1 + 2 * W
OnceEach   == \A i, j \in 1..Len(st.out) : i # j => st.out[i][1] # st.out[j][1]
DepthBound == \A i \in 1..Len(st.out) : st.out[i][2] <= W
PathBound  == st.seen = {} =>
                \A b \in [1..W -> {0, 1}] : Len(tree) > 0 => Len(Path(tree, b, 0)) <= W + 1
Ends == <>(st.r # "run")
Emit == st = WalkInit(tree) => PrintT(<<"TREE", tree>>)
=============================================================================
