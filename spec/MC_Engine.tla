----------------------------- MODULE MC_Engine ------------------------------
(* Every set of at most K networks of a small space, cleaned up and then     *)
(* read back in every way, one step of the algorithms at a time.             *)
EXTENDS Engine, FiniteSetsExt
CONSTANTS K
SmallMap == <<0, 1>>
VARIABLES orig, S, phase, cur, q, e, g, flt, out
vars == <<orig, S, phase, cur, q, e, g, flt, out>>

Attrs == { [cc |-> "A", asn |-> <<0, 1>>, fl |-> 0], [cc |-> "", asn |-> <<0, 2>>, fl |-> 1] }
Net(b, t) == [a |-> b.a, p |-> b.p, cc |-> t.cc, asn |-> t.asn, fl |-> t.fl]
Sets == UNION { { { Net(b, f[b]) : b \in B } : f \in [B -> Attrs] } : B \in UNION { kSubset(i, AllBlocks) : i \in 0..K } }
Flt(fam, con, cs, fl) == [fam |-> fam, con |-> con, cs |-> cs, aon |-> FALSE, as |-> {}, fl |-> fl]
All == Flt(0, FALSE, {}, {})
Fams == { Flt(f, FALSE, {}, {}) : f \in {0, 4, 6} }
Filters == Fams \union { Flt(f, TRUE, {"A"}, {}) : f \in {0, 4, 6} } \union { Flt(0, FALSE, {}, {0}) }

Init == /\ orig \in Sets /\ S = orig /\ phase = "dedup6" /\ cur = None /\ q = <<>>
        /\ e = Start /\ g = Gaps /\ flt = All /\ out = <<>>

Rest == UNCHANGED <<orig, e, g, flt, out>>
Dedup(ph, fam, next) ==
    /\ phase = ph /\ Rest
    /\ LET n == NextIn(S, cur) IN
       IF n = None THEN phase' = next /\ cur' = None /\ q' = <<>> /\ S' = S
       ELSE /\ phase' = ph /\ cur' = n
            /\ IF Skipped(S, n, fam) THEN S' = S /\ q' = q
               ELSE LET r == DedupStep(S, q, n) IN S' = r.S /\ q' = r.q
Merge ==
    /\ phase = "merge" /\ Rest
    /\ LET n == NextIn(S, cur) IN
       IF n = None THEN /\ phase' = IF MergePassFrom(S, <<>>, None) = S THEN "tree" ELSE "merge"
                        /\ cur' = None /\ q' = <<>> /\ S' = S
       ELSE LET r == MergeStep(S, q, n) IN phase' = "merge" /\ cur' = n /\ S' = r.S /\ q' = r.q
Pick == /\ phase = "tree" /\ UNCHANGED <<orig, S, cur, q, e, g, out>>
        /\ \/ phase' \in {"walk", "flat"} /\ flt' \in Filters
           \/ phase' = "gaps" /\ flt' \in Fams
Walk == /\ phase = "walk" /\ UNCHANGED <<orig, S, cur, q, g, flt>>
        /\ LET r == Fetch(S, e, flt, TRUE) IN
           /\ e' = r.e
           /\ IF r.net = None THEN phase' = "walked" /\ out' = out
              ELSE phase' = phase /\ out' = Append(out, r.net)
Flat == /\ phase = "flat" /\ UNCHANGED <<orig, S, cur, q, g, flt>>
        /\ LET r == FlatRound(S, e, flt) IN
           /\ e' = r.e
           /\ out' = IF r.net = None THEN out ELSE Append(out, r.net)
           /\ phase' = IF r.done THEN "flattened" ELSE phase
Gap  == /\ phase = "gaps" /\ UNCHANGED <<orig, S, cur, q, flt>>
        /\ LET r == Fetch(S, e, flt, TRUE) IN
           /\ e' = r.e
           /\ IF r.net = None THEN phase' = "gapped" /\ out' = out \o GapEnd(g) /\ g' = g
              ELSE /\ phase' = phase
                   /\ IF r.net.cc = "" THEN out' = out /\ g' = g
                      ELSE LET h == GapNet(g, r.net) IN out' = out \o h.q /\ g' = h.g
Next == Dedup("dedup6", 6, "dedup4") \/ Dedup("dedup4", 4, "merge") \/ Merge \/ Pick \/ Walk \/ Flat \/ Gap
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ------------------------------------------------------------- claims *)
(* at no point does the clean-up change what an address is told, and it      *)
(* never makes two networks of one place or more networks than there were    *)
Keeps == /\ phase \in {"dedup6", "dedup4", "merge", "tree"} => AttrEq(S, orig)
         /\ \A m, n \in S : SamePlace(m, n) => m = n
         /\ Cardinality(S) <= Cardinality(orig)
(* cleaning up what has been cleaned up changes nothing *)
Stable == phase = "tree" => (Clean(S) = S /\ S = Clean(orig))
OnlyClean == phase \in {"dedup6", "dedup4", "merge", "tree"}
Finds == phase = "tree" => \A x \in AllAddr : Descend(S, x, 0) = Lpm(S, x)
Walks == phase = "walked" => SearchOK(out, S, flt)
Flats == phase = "flattened" => FlatOK(out, S, flt)
Sorted(A) == SetToSortSeq(A, Before)
Bogons == phase = "gapped" =>
            /\ BogonsOK(Sorted({ n \in Ran(out) : FamOf(n) = 4 }), Sorted({ n \in Ran(out) : FamOf(n) = 6 }), S, flt.fam)
            /\ Cardinality(Ran(out)) = Len(out)
Ends == <>(phase \in {"walked", "flattened", "gapped"})
=============================================================================
