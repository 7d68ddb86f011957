-------------------------------- MODULE Cli ---------------------------------
(* The command line tool: what its commands report about a database, and     *)
(* the sets that it exports for packet filters.                              *)
EXTENDS LocDB

Places(q) == [ i \in 1..Len(q) |-> <<q[i].a, q[i].p>> ]
PlacesOf(S) == { <<n.a, n.p>> : n \in S }

(* ------------------------------------------------------------- exports *)
(* An object of an export is a country, a special code or an AS.             *)
SpecialBit == [A1 |-> 0, A2 |-> 1, A3 |-> 2, XD |-> 3]
Specials == {"A1", "A2", "A3", "XD"}
FilterOf(o, fam) ==
    IF o.kind = "as"
    THEN [fam |-> fam, con |-> FALSE, cs |-> {}, aon |-> TRUE, fl |-> {},
          as |-> IF o.n = <<0, 0>> THEN {} ELSE {o.n}]       \* 0: no AS at all
    ELSE IF o.name \in Specials
    THEN [fam |-> fam, con |-> TRUE, cs |-> {}, aon |-> FALSE, as |-> {}, fl |-> {SpecialBit[o.name]}]
    ELSE [fam |-> fam, con |-> TRUE, cs |-> {o.name}, aon |-> FALSE, as |-> {}, fl |-> {}]

FamText(fam) == IF fam = 4 THEN "4" ELSE "6"
Suffix(fmt, fam) == CASE fmt = "list" -> "networks" [] fmt = "ipset" -> "ipset" [] fmt = "nftables" -> "set"
                      [] fmt = "xt_geoip" -> "iv" \o FamText(fam)
Tag(fmt, o, fam) == IF fmt = "xt_geoip" THEN o.name ELSE o.name \o "v" \o FamText(fam)
FileName(fmt, o, fam) == Tag(fmt, o, fam) \o "." \o Suffix(fmt, fam)
HasTag(fmt) == fmt \in {"ipset", "nftables"}

(* without objects: the special codes and all countries of the database *)
Objects(d, given) ==
    IF given # {} THEN given
    ELSE { [kind |-> "code", name |-> c] : c \in Specials \union { x.code : x \in db[d].cts } }

(* f: a set as it was found: ok (well-formed), tag, hdrfam (the family its   *)
(* header names, 0: none), the blocks q in ascending order, and if this was  *)
(* the order in which they were written                                      *)
SetOK(S, fmt, o, fam, f) ==
    /\ f.ok
    /\ HasTag(fmt) => f.tag = Tag(fmt, o, fam)
    /\ fmt = "ipset" => f.hdrfam = fam
    /\ fmt = "xt_geoip" => f.asc         \* the kernel searches it by bisection
    /\ \A i \in 1..Len(f.q) : FamOf(f.q[i]) = fam
    /\ CoverOK(f.q, S, FilterOf(o, fam))

ExportOK(d, fmt, fams, given, files) ==
    LET O == Objects(d, given)
        want == { FileName(fmt, o, fam) : o \in O, fam \in fams }
    IN
    /\ { files[i].name : i \in 1..Len(files) } = want
    /\ Len(files) = Cardinality(want)
    /\ \A o \in O, fam \in fams : \A i \in 1..Len(files) :
         files[i].name = FileName(fmt, o, fam) => SetOK(db[d].nets, fmt, o, fam, files[i])

(* ------------------------------------------------------------- lookups *)
(* q: one address of the command line and the block printed for it *)
LookupBlockOK(d, q) ==
    LET n == Lpm(db[d].nets, q.x) IN
    IF n = None THEN q.found = 0
    ELSE /\ q.found = 1
         /\ <<q.a, q.p>> = <<n.a, n.p>>
         /\ LET c == CountryResult(d, n.cc) IN
            q.country = (IF n.cc = "" THEN <<>> ELSE IF c = None THEN <<n.cc>> ELSE <<c.name>>)
         /\ LET a == AsResult(d, n.asn) IN
            q.as = (IF n.asn = <<0, 0>> THEN <<>>
                    ELSE <<[n |-> n.asn, name |-> IF a = None THEN "" ELSE a.name]>>)
         /\ Ran(q.flags) = Flags(n.fl) \intersect 0..3
(* an invalid address ends the command *)
LookupsOK(d, qs, shown, code) ==
    LET bad == { i \in 1..Len(qs) : ~qs[i].valid }
        stop == IF bad = {} THEN Len(qs) ELSE (CHOOSE i \in bad : \A j \in bad : i <= j) - 1
    IN
    /\ \A i \in 1..stop : LookupBlockOK(d, qs[i])
    /\ \A i \in (stop + 1)..Len(qs) : qs[i].found = 0
    /\ shown = Cardinality({ i \in 1..stop : Lpm(db[d].nets, qs[i].x) # None })
    /\ code = (IF bad # {} THEN 2
               ELSE IF \E i \in 1..stop : Lpm(db[d].nets, qs[i].x) = None THEN 1 ELSE 0)
=============================================================================
