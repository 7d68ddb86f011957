------------------------------ MODULE MC_Conc -------------------------------
(* Interleavings of walks, lookups and changes to the files.  The plans (who *)
(* takes part with how many steps) come from outside; TLC explores every     *)
(* interleaving of every plan on the LocDB machine, checks that nobody       *)
(* disturbs anybody, and prints the schedules for their replay in the        *)
(* library.                                                                  *)
EXTENDS LocDB, Json, IOUtils

SmallMap == <<1>>
Plans == JsonDeserialize(IOEnv.PLANS)   \* [walks |-> seq of [kind, d, n], looks |-> <<n, n>>, files |-> n]

N(a, p, k) == [a |-> a, p |-> p, cc |-> "AA", asn |-> <<0, k>>, fl |-> 0]
A(k) == [n |-> <<0, k>>, name |-> "x"]
Old == [Blank EXCEPT !.nets = { N(<<0, 0>>, 1, 1), N(<<0, 0>>, 2, 2) }, !.ases = { A(1), A(2) }]
New == [Blank EXCEPT !.nets = { N(<<0, 0>>, 1, 3), N(<<1, 0>>, 1, 4) }, !.ases = { A(2), A(3) }]

VARIABLES plan, left, out, looked, hist
vars == <<wr, fs, db, en, plan, left, out, looked, hist>>

Walks == 1..Len(Plans[plan].walks)
Content(d) == IF d = 1 THEN Old ELSE New
All(kind, c) == IF kind = "as" THEN SortAs(c.ases) ELSE SortNet(c.nets)

Init ==
  \E p \in 1..Len(Plans) :
    /\ plan = p
    /\ wr = EmptyFn
    /\ fs = ("p" :> Old) @@ ("q" :> New)
    /\ db = (1 :> Old) @@ (2 :> New)
    /\ en = [i \in 1..Len(Plans[p].walks) |->
               LET w == Plans[p].walks[i] a == All(w.kind, Content(w.d)) IN
               [kind |-> w.kind, all |-> a, todo |-> a]]
    /\ left = [walks |-> [i \in 1..Len(Plans[p].walks) |-> Plans[p].walks[i].n],
               looks |-> Plans[p].looks, files |-> Plans[p].files]
    /\ out = [i \in 1..Len(Plans[p].walks) |-> <<>>]
    /\ looked = {}
    /\ hist = <<>>

Step(i) == /\ left.walks[i] > 0
           /\ left' = [left EXCEPT !.walks[i] = @ - 1]
           /\ out' = [out EXCEPT ![i] = Append(@, ENextResult(i))]
           /\ ENext(i)
           /\ hist' = Append(hist, i)
           /\ UNCHANGED <<plan, looked>>
Look(d) == /\ left.looks[d] > 0
           /\ left' = [left EXCEPT !.looks[d] = @ - 1]
           /\ looked' = looked \union { <<d, x, LookupResult(d, x)>> : x \in AllAddr }
           /\ hist' = Append(hist, 10 + d)
           /\ UNCHANGED <<wr, fs, db, en, plan, out>>
(* first the other file takes the place of the first one, then that goes *)
File == /\ left.files > 0
        /\ left' = [left EXCEPT !.files = @ - 1]
        /\ IF "q" \in DOMAIN fs THEN FRename("q", "p")
           ELSE IF "p" \in DOMAIN fs THEN FUnlink("p") ELSE UNCHANGED dbvars
        /\ hist' = Append(hist, 20)
        /\ UNCHANGED <<plan, out, looked>>

Done == /\ \A i \in Walks : left.walks[i] = 0
        /\ left.looks[1] = 0 /\ left.looks[2] = 0 /\ left.files = 0
Next == \/ \E i \in Walks : Step(i)
        \/ \E d \in {1, 2} : Look(d)
        \/ File
Spec == Init /\ [][Next]_vars

(* ----------------------------------------------------------- properties *)
Alone(i, k) == \* what the k-th call returns if nobody else is there
    LET w == Plans[plan].walks[i]  a == All(w.kind, Content(w.d))  m == Len(a) IN
    IF w.kind = "as" THEN LET r == (k - 1) % (m + 1) IN IF r = m THEN None ELSE a[r + 1]
    ELSE IF k <= m THEN a[k] ELSE None
Undisturbed == \A i \in Walks : \A k \in 1..Len(out[i]) : out[i][k] = Alone(i, k)
Snapshot == /\ db[1] = Old /\ db[2] = New
            /\ \A t \in looked : t[3] = Lpm(Content(t[1]).nets, t[2])
Emit == Done => PrintT(<<"SCHED", plan, hist>>)
=============================================================================
