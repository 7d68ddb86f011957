------------------------------- MODULE LocDB --------------------------------
(* The state machine of the library: writers, database files, open database  *)
(* handles and enumerators.  One action per public call; each action takes   *)
(* the arguments and the observed result of the call, so the same actions    *)
(* serve the exhaustive models (result chosen by the model) and the          *)
(* validation of recorded executions (result as logged).                     *)
EXTENDS Nets

VARIABLES wr,   \* writer id    -> what has been added to it
          fs,   \* path         -> content of the database file
          db,   \* handle id    -> content of the file when it was opened
          en    \* enumerator   -> [kind, todo, all]

dbvars == <<wr, fs, db, en>>

Upd(f, k, v) == (k :> v) @@ f
Del(f, k)    == [x \in (DOMAIN f) \ {k} |-> f[x]]
EmptyFn      == [x \in {} |-> 0]

DBInit == wr = EmptyFn /\ fs = EmptyFn /\ db = EmptyFn /\ en = EmptyFn

(* orig: the networks as they were added (nets: as they are stored) *)
Blank == [nets |-> {}, orig |-> {}, ases |-> {}, cts |-> {}, vendor |-> "", description |-> "", license |-> "",
          keys |-> {},      \* the keys that sign it
          created |-> <<>>] \* when it says it was made, if that is known

(* 32 bit numbers are pairs <<high 16 bits, low 16 bits>> *)
Lt32(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])

(* ------------------------------------------------------------- writer *)
WNew(w, keys) == wr' = Upd(wr, w, [Blank EXCEPT !.keys = keys]) /\ UNCHANGED <<fs, db, en>>

WMeta(w, what, s) ==
    /\ wr' = [wr EXCEPT ![w][what] = s]
    /\ UNCHANGED <<fs, db, en>>

(* valid: the string denotes a network and the properties are acceptable *)
WNetResult(w, n, valid) ==
    IF ~valid THEN "err"
    ELSE IF \E m \in wr[w].nets : SamePlace(m, n) THEN "busy" ELSE "ok"
WNet(w, n, r) ==
    /\ wr' = IF r = "ok" THEN [wr EXCEPT ![w].nets = @ \union {n}] ELSE wr
    /\ UNCHANGED <<fs, db, en>>

(* The first AS of a number (country of a code) stays; a later addition      *)
(* succeeds, but does not alter it.                                          *)
WAs(w, a) ==
    /\ wr' = IF \E b \in wr[w].ases : b.n = a.n THEN wr
             ELSE [wr EXCEPT ![w].ases = @ \union {a}]
    /\ UNCHANGED <<fs, db, en>>
WCountry(w, c) ==
    /\ wr' = IF \E d \in wr[w].cts : d.code = c.code THEN wr
             ELSE [wr EXCEPT ![w].cts = @ \union {c}]
    /\ UNCHANGED <<fs, db, en>>

(* Writing may express the assignment by other networks; the writer keeps    *)
(* what was put into it.                                                     *)
WriteOK(w, T) == AttrEq(wr[w].nets, T)
WWrite(w, path, T) ==
    LET c == [wr[w] EXCEPT !.nets = T, !.orig = wr[w].nets] IN
    /\ fs' = Upd(fs, path, c)
    /\ UNCHANGED <<wr, db, en>>

(* -------------------------------------------------------------- files *)
FRename(p, q) == fs' = Upd(Del(fs, p), q, fs[p]) /\ UNCHANGED <<wr, db, en>>
FUnlink(p)    == fs' = Del(fs, p) /\ UNCHANGED <<wr, db, en>>

(* ------------------------------------------------------------ handles *)
DOpen(d, path) == db' = Upd(db, d, fs[path]) /\ UNCHANGED <<wr, fs, en>>
DClose(d)      == db' = Del(db, d) /\ UNCHANGED <<wr, fs, en>>

LookupResult(d, x) == Lpm(db[d].nets, x)
AsResult(d, k)  == LET A == { a \in db[d].ases : a.n = k } IN
                   IF A = {} THEN None ELSE CHOOSE a \in A : TRUE
CountryResult(d, k) == LET A == { a \in db[d].cts : a.code = k } IN
                       IF A = {} THEN None ELSE CHOOSE a \in A : TRUE

(* -------------------------------------------------------- enumerators *)
AscAs(q) == \A i \in 1..(Len(q) - 1) : Lt32(q[i].n, q[i + 1].n)
RECURSIVE SortAs(_)
SortAs(A) == IF A = {} THEN <<>> ELSE
    LET m == CHOOSE x \in A : \A y \in A : x = y \/ Lt32(x.n, y.n)
    IN <<m>> \o SortAs(A \ {m})
RECURSIVE SortNet(_)
SortNet(A) == IF A = {} THEN <<>> ELSE
    LET m == CHOOSE x \in A : \A y \in A : x = y \/ Before(x, y)
    IN <<m>> \o SortNet(A \ {m})

ENew(e, kind, all) == en' = Upd(en, e, [kind |-> kind, all |-> all, todo |-> all])
                      /\ UNCHANGED <<wr, fs, db>>
EDrop(e) == en' = Del(en, e) /\ UNCHANGED <<wr, fs, db>>

(* what the next call returns; network walks stay at their end, AS and       *)
(* country walks start over                                                  *)
ENextResult(e) == IF en[e].todo = <<>> THEN None ELSE Head(en[e].todo)
ENext(e) ==
    /\ en' = [en EXCEPT ![e].todo =
                IF @ # <<>> THEN Tail(@)
                ELSE IF en[e].kind \in {"as", "country"} THEN en[e].all ELSE <<>>]
    /\ UNCHANGED <<wr, fs, db>>
=============================================================================
