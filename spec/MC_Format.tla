----------------------------- MODULE MC_Format ------------------------------
(* Every small content in several layouts: reading its file gives it back    *)
(* (the two halves of Format agree), and the file is printed to be read by   *)
(* the library.                                                              *)
EXTENDS Format, SequencesExt, FiniteSetsExt

RealMap == <<0, 0, 0, 0, 0, 65535>>
K == atoi(IOEnv.GEN_K)

(* --------------------------------------------------------------- writing *)
Place(a, p) == [a |-> First(a, p), p |-> p]
Nodes(S) == { Place(Zero, 0) } \union UNION { { Place(n.a, q) : q \in 0..n.p } : n \in S }
Wide(x, y) == x.p < y.p \/ (x.p = y.p /\ Lt(x.a, y.a))       \* level by level
Deep(x, y) == Lt(x.a, y.a) \/ (x.a = y.a /\ x.p < y.p)       \* branch by branch
Back(x, y) == x.p = 0 \/ (y.p # 0 /\ Wide(y, x))             \* the root, then from the last one
Order(S, lay) == CASE lay.tree = "wide" -> SetToSortSeq(S, Wide)
                   [] lay.tree = "deep" -> SetToSortSeq(S, Deep)
                   [] OTHER             -> SetToSortSeq(S, Back)
NetKey(n) == <<n.cc, n.asn, n.fl>>
NetSeq(S, lay) == IF lay.share THEN SetToSeq({ NetKey(n) : n \in S })
                  ELSE LET q == SetToSeq(S) IN [i \in 1..Len(q) |-> NetKey(q[i])]
NetIdx(S, lay, n) == IF lay.share THEN IndexOf(SetToSeq({ NetKey(m) : m \in S }), NetKey(n)) - 1
                     ELSE IndexOf(SetToSeq(S), n) - 1
TreeBytes(S, lay) ==
    LET N == Nodes(S)
        q == Order(N, lay)
        Pos == [x \in N |-> IndexOf(q, x) - 1]
        Kid(x) == B32(IF x \in N THEN Pos[x] ELSE 0)
        One(x) == LET here == { n \in S : n.a = x.a /\ n.p = x.p } IN
                  (IF x.p = AW THEN Zeros(8)
                   ELSE Kid(Place(x.a, x.p + 1)) \o Kid(Place(SetBit(x.a, x.p), x.p + 1)))
                  \o (IF here = {} THEN <<255, 255, 255, 255>> ELSE B32(NetIdx(S, lay, CHOOSE n \in here : TRUE)))
    IN Cat([i \in 1..Len(q) |-> One(q[i])])
NetBytes(S, lay) == LET q == NetSeq(S, lay) IN
    Cat([i \in 1..Len(q) |-> q[i][1] \o (IF lay.junk THEN <<7, 9>> ELSE <<0, 0>>) \o B32p(q[i][2]) \o B16(q[i][3])
                             \o (IF lay.junk THEN <<255, 1>> ELSE <<0, 0>>)])

Strings(c) == { a.name : a \in c.ases } \union { t.name : t \in c.cts } \union { c.vendor, c.description, c.license }
Kept(c, lay) == LET T == Strings(c) IN
                IF lay.tail THEN { s \in T : ~\E t \in T : t # s /\ EndsWith(t, s) } ELSE T
PoolSeq(c, lay) == LET q == SetToSeq(Kept(c, lay)) IN IF lay.junk THEN <<<<33, 34>>>> \o q ELSE q
PoolBytes(c, lay) == Cat([i \in 1..Len(PoolSeq(c, lay)) |-> PoolSeq(c, lay)[i] \o <<0>>])
PoolPos(c, lay, s) ==
    LET q == PoolSeq(c, lay)
        i == CHOOSE k \in 1..Len(q) : EndsWith(q[k], s) /\ (lay.tail \/ q[k] = s)
    IN FoldSet(LAMBDA k, acc : acc + Len(q[k]) + 1, 0, 1..(i - 1)) + Len(q[i]) - Len(s)

Lt32f(x, y) == x.n[1] < y.n[1] \/ (x.n[1] = y.n[1] /\ x.n[2] < y.n[2])
CtLt(x, y) == x.code[1] * 256 + x.code[2] < y.code[1] * 256 + y.code[2]
AsBytes(c, lay) == LET q == SetToSortSeq(c.ases, Lt32f) IN
    Cat([i \in 1..Len(q) |-> B32p(q[i].n) \o B32(PoolPos(c, lay, q[i].name))])
CtBytes(c, lay) == LET q == SetToSortSeq(c.cts, CtLt) IN
    Cat([i \in 1..Len(q) |-> q[i].code \o q[i].cont \o B32(PoolPos(c, lay, q[i].name))])

Chunks(b) == [i \in 1..((Len(b) + PageSize - 1) \div PageSize) |->
                SubSeq(b, (i - 1) * PageSize + 1, IF i * PageSize < Len(b) THEN i * PageSize ELSE Len(b))]
Parts == << "as", "net", "tree", "ct", "pool" >>
Orders == << <<1, 2, 3, 4, 5>>, <<5, 4, 3, 2, 1>>, <<3, 1, 5, 2, 4>> >>
Body(c, lay, k) == CASE Parts[k] = "as"   -> AsBytes(c, lay)
                     [] Parts[k] = "net"  -> NetBytes(c.nets, lay)
                     [] Parts[k] = "tree" -> TreeBytes(c.nets, lay)
                     [] Parts[k] = "ct"   -> CtBytes(c, lay)
                     [] OTHER             -> PoolBytes(c, lay)
Encode(c, lay) ==
    LET o == Orders[lay.order]
        body == [k \in 1..5 |-> Chunks(Body(c, lay, o[k]))]
        len == [k \in 1..5 |-> FoldSet(LAMBDA i, acc : acc + Len(body[k][i]), 0, 1..Len(body[k]))]
        start == [k \in 1..5 |-> PageSize * (2 + lay.gap * k + FoldSet(LAMBDA i, acc : acc + Len(body[i]), 0, 1..(k - 1)))]
        at == [s \in 1..5 |-> LET k == IndexOf(o, s) IN B32(IF len[k] = 0 THEN 2 * PageSize ELSE start[k]) \o B32(len[k])]
        head == MagicBytes \o <<1>> \o B64(c.created)
                \o B32(PoolPos(c, lay, c.vendor)) \o B32(PoolPos(c, lay, c.description)) \o B32(PoolPos(c, lay, c.license))
                \o at[1] \o at[2] \o at[3] \o at[4] \o at[5]
        second == IF lay.junk THEN Zeros(4168 - 4096) \o [i \in 1..32 |-> i] ELSE <<>>
        pages == << head, second >> \o Cat([k \in 1..5 |-> [i \in 1..lay.gap |-> <<>>] \o body[k]])
        last == CHOOSE k \in 1..5 : len[k] > 0 /\ \A j \in (k + 1)..5 : len[j] = 0
    IN [ size |-> start[last] + len[last], pages |-> pages ]

(* -------------------------------------------------------------- contents *)
(* the same with texts for comparing *)
RECURSIVE Text(_)
Text(s) == IF s = <<>> THEN "" ELSE Chr[s[1]] \o Text(Tail(s))
Cc(s) == IF s[1] = 0 THEN "" ELSE IF s[2] = 0 THEN Chr[s[1]] ELSE Chr[s[1]] \o Chr[s[2]]
Meaning(c) == [ nets |-> { [n EXCEPT !.cc = Cc(n.cc)] : n \in c.nets },
                ases |-> { [n |-> a.n, name |-> Text(a.name), chars |-> a.name] : a \in c.ases },
                cts  |-> { [code |-> Cc(t.code), cont |-> Cc(t.cont), name |-> Text(t.name),
                            k |-> t.code[1] * 256 + t.code[2]] : t \in c.cts },
                vendor |-> Text(c.vendor), description |-> Text(c.description), license |-> Text(c.license),
                created |-> c.created ]

DE == <<68, 69>>  US == <<85, 83>>  NoCC == <<0, 0>>  EU == <<69, 85>>
Net(a, p, cc, asn, fl) == [a |-> a, p |-> p, cc |-> cc, asn |-> asn, fl |-> fl]
Blocks == { Net(Zero, 0, DE, <<0, 1>>, 0), Net(Zero, 1, NoCC, <<65535, 65535>>, 1),
            Net(Ones, 128, US, <<1, 0>>, 32769), Net(MapFirst, 96, DE, <<0, 0>>, 8),
            Net(<<0, 0, 0, 0, 0, 65535, 2560, 0>>, 104, DE, <<0, 1>>, 0), Net(MapLast, 128, NoCC, <<0, 0>>, 4),
            Net(<<8193, 3512, 0, 0, 0, 0, 0, 0>>, 33, US, <<32768, 0>>, 256), Net(Zero, 128, US, <<0, 258>>, 65535),
            Net(<<0, 0, 0, 0, 0, 65534, 0, 0>>, 95, DE, <<0, 1>>, 2) }
AsNames == << [n |-> <<0, 0>>, name |-> <<>>], [n |-> <<0, 258>>, name |-> <<97, 98, 99>>],
              [n |-> <<1, 0>>, name |-> <<98, 99>>], [n |-> <<32768, 1>>, name |-> <<195, 150, 255>>],
              [n |-> <<65535, 65535>>, name |-> [i \in 1..300 |-> 97 + (i % 26)]] >>
CtNames == << [code |-> DE, cont |-> EU, name |-> <<98, 99>>], [code |-> US, cont |-> NoCC, name |-> <<>>],
              [code |-> <<65, 90>>, cont |-> <<65, 83>>, name |-> <<65, 32, 90>>],
              [code |-> <<90, 65>>, cont |-> EU, name |-> <<90>>] >>
Times == << <<0, 0, 0, 0>>, <<0, 0, 24414, 4096>>, <<0, 1, 0, 5>>, <<0, 0, 65535, 65535>> >>
Bits(k, q) == { q[i] : i \in { j \in 1..Len(q) : (k \div P2[j - 1]) % 2 = 1 } }

(* the small parts vary along with the networks *)
Content(S, k) == [ nets |-> S, ases |-> Bits(k % 32, AsNames), cts |-> Bits((k \div 3) % 16, CtNames),
                   vendor |-> IF k % 3 = 0 THEN <<>> ELSE <<99>>, description |-> IF k % 2 = 0 THEN <<97, 98, 99>> ELSE <<73>>,
                   license |-> <<98, 99>>, created |-> Times[(k % 4) + 1] ]
Layouts == << [order |-> 1, tree |-> "wide", share |-> FALSE, tail |-> FALSE, gap |-> 0, junk |-> FALSE],
              [order |-> 2, tree |-> "deep", share |-> TRUE, tail |-> TRUE, gap |-> 1, junk |-> FALSE],
              [order |-> 3, tree |-> "back", share |-> TRUE, tail |-> FALSE, gap |-> 0, junk |-> TRUE],
              [order |-> 1, tree |-> "deep", share |-> FALSE, tail |-> TRUE, gap |-> 2, junk |-> TRUE] >>
Worlds == SetToSeq(UNION { kSubset(k, Blocks) : k \in 0..K })

VARIABLES k, lay, file
vars == <<k, lay, file>>
Init == k \in 1..Len(Worlds) /\ lay \in 1..Len(Layouts) /\ file = <<>>
Next == /\ file = <<>>
        /\ file' = Encode(Content(Worlds[k], 7 * k + lay), Layouts[lay])
        /\ PrintT("FILE " \o ToJson(file'))
        /\ UNCHANGED <<k, lay>>
Spec == Init /\ [][Next]_vars
RoundTrip == file = <<>> \/ (/\ Legal(file)
                             /\ (~Layouts[lay].junk => Written(file))
                             /\ Decode(file) = Meaning(Content(Worlds[k], 7 * k + lay)))
=============================================================================
