----------------------------- MODULE MC_Update ------------------------------
(* Every update with up to N mirrors of all kinds, from every installed file  *)
(* and announcement, killed or hit by a fault at every point.                 *)
(* The cases are printed for replay.                                          *)
EXTENDS Update, IOUtils

N == atoi(IOEnv.UPDATE_MIRRORS)
(* three authentic files; the second is one second newer than the first *)
G(v) == [id |-> CASE v = 1 -> "g1" [] v = 2 -> "g2" [] v = 3 -> "g3", auth |-> TRUE, at |-> CASE v = 1 -> 10 [] v = 2 -> 11 [] v = 3 -> 90]
Junk(id) == [id |-> id, auth |-> FALSE, at |-> 90]
Serve(f) == [does |-> "serve", file |-> f]
Kinds == << Serve(G(1)), Serve(G(2)), Serve(G(3)), Serve(Junk("foreign")), Serve(Junk("unsigned")), Serve(Junk("corrupt")),
            Serve(Junk("short")), Serve(Junk("plain")), Serve(Junk("html")),
            [does |-> "cut", file |-> G(3)], [does |-> "reset", file |-> G(3)],
            [does |-> "empty", file |-> Junk("empty")], [does |-> "error", file |-> NoFile] >>
KNames == << "good1", "good2", "good3", "foreign", "unsigned", "corrupt", "short", "plain", "html", "cut", "reset", "empty", "error" >>
Insts == << NoFile, G(1), G(2), G(3) >>
Anns  == << 0, 10, 11, 12 >>

VARIABLE id
vars == <<uvars, id>>
Seqs == UNION { [1..n -> 1..Len(Kinds)] : n \in 1..N }
Init == \E i \in 1..4, a \in 1..4, r \in BOOLEAN, s \in Seqs :
          /\ r => i # 1
          /\ UInit([inst |-> Insts[i], ann |-> Anns[a], recent |-> r, mirrors |-> [k \in 1..Len(s) |-> Kinds[s[k]]]])
          /\ id = <<i, a, r, s>>
Next == UNext /\ UNCHANGED id
Spec == Init /\ [][Next]_vars /\ WF_uvars(Start \/ Mktemp \/ Pick \/ Get \/ GotAll \/ Verify \/ Chmod \/ Rename \/ GiveUp)
Ends == <>(pc \in {"done", "killed", "faulted"})
Emit == pc = "start" => PrintT(<<"CASE", id[1], id[2], id[3], [k \in 1..Len(id[4]) |-> KNames[id[4][k]]]>>)
=============================================================================
