------------------------------- MODULE RecMC --------------------------------
(* The records of RecData explored exhaustively: one 2 x 2 paired data record *)
(* with every partial store (Parts), or a few kinds of record under two names *)
(* (Mix).  Every transition is printed and replayed on the real library.      *)
EXTENDS RecData, Json
CONSTANTS Mix, Rows, Cols, Show
VARIABLES S, op
vars == <<S, op>>
Names == IF Mix THEN {"/A/B/C///V1/", "/A/B/C///V2/"} ELSE {"/A/B/C///V1/"}
Num(x) == <<x, x>>
Ordinates == [i \in 1..Rows |-> Num(ToString(i))]
PdC(sz, v, lab) == [sz |-> sz, no |-> Rows, nc |-> Cols, o |-> Ordinates, v |-> [i \in 1..(Rows * Cols) |-> Num(v)], lab |-> lab]
Lab(t) == [j \in 1..Cols |-> t]
(* kinds of content in the mixed model: kind, type number, content *)
Contents == {[k |-> "pd", ty |-> 200, c |-> PdC(1, "1", << >>)], [k |-> "pd", ty |-> 205, c |-> PdC(2, "1", << >>)],
             [k |-> "tx", ty |-> 300, c |-> "t1"], [k |-> "tx", ty |-> 300, c |-> "t2"], [k |-> "tx", ty |-> 310, c |-> "t3"],
             [k |-> "ar", ty |-> 90, c |-> "a1"], [k |-> "gd", ty |-> 420, c |-> "g1"], [k |-> "gd", ty |-> 400, c |-> "g2"], [k |-> "ti", ty |-> 450, c |-> "n1"]}
(* versions are left to the conformance check *)
Norm(T) == [p \in DOMAIN T |-> [T[p] EXCEPT !.lo = 1, !.hi = 1]]
Init == S = << >> /\ op = [o |-> "init"]
Do(T, o) == S' = Norm(T) /\ op' = o
MWhole == ~Mix /\ \E p \in Names, sz \in {1, 2}, v \in {"1", "0"}, lab \in {<< >>, Lab("a")} :
    Do(PdPut(S, p, PdC(sz, v, lab), p), [o |-> "whole", p |-> p, sz |-> sz, v |-> v, lab |-> lab])
Ranges(n) == {<<0, 0>>} \cup {<<a, b>> \in (1..n) \X (1..n) : a <= b}
MPart == ~Mix /\ \E p \in Names, r \in Ranges(Rows), j \in Ranges(Cols), lab \in {"", "b"} :
    LET R == Part(r[1], r[2], Rows) J == Part(j[1], j[2], Cols) IN
    /\ p \in DOMAIN S /\ ~Entire(Rows, Cols, j[1], j[2], r[1], r[2])
    /\ Do(PdPatch(S, p, R, J, [i \in 1..(Cardinality(R) * Cardinality(J)) |-> Num("2")], IF lab = "" THEN << >> ELSE [i \in 1..Cardinality(J) |-> lab]),
          [o |-> "part", p |-> p, r |-> r, j |-> j, n |-> Cardinality(R) * Cardinality(J), nl |-> IF lab = "" THEN 0 ELSE Cardinality(J)])
MPut == Mix /\ \E p \in Names, x \in Contents :
    Do(IF x.k = "pd" THEN PdPut(S, p, x.c, p) ELSE Put(S, p, x.k, x.ty, x.c, p), [o |-> "put", p |-> p, k |-> x.k, ty |-> x.ty, c |-> IF x.k = "pd" THEN "" ELSE x.c])
MDel == \E p \in Names : Do(Delete(S, p), [o |-> "del", p |-> p])
MDup == Mix /\ \E p \in Names, q \in Names : p # q /\ Do(IF p \in DOMAIN S /\ Allowed(S, q, S[p].ty) THEN Write(S, q, S[p].k, S[p].ty, S[p].c, q) ELSE S, [o |-> "dup", p |-> p, q |-> q])
MRen == Mix /\ \E p \in Names, q \in Names : p # q /\ Do(IF p \in DOMAIN S THEN Plus(Minus(S, {p}), q, [S[p] EXCEPT !.d = q]) ELSE S, [o |-> "ren", p |-> p, q |-> q])
Next == MWhole \/ MPart \/ MPut \/ MDel \/ MDup \/ MRen
Spec == Init /\ [][Next]_vars
View == [p \in DOMAIN S |-> IF S[p].k = "pd" THEN <<S[p].ty, [i \in DOMAIN S[p].c.v |-> S[p].c.v[i][1]], S[p].c.lab>> ELSE <<S[p].ty, S[p].c>>]
Emit == Show => PrintT("@T " \o ToJson([f |-> [s |-> View], o |-> op', t |-> [s |-> View']]))
(* ------------------------------- properties ------------------------------ *)
Inv == FileOk(S)
Is(o) == op'.o = o
(* a partial store touches its own part only, and all of it *)
Untouched == [][Is("part") => LET p == op'.p R == Part(op'.r[1], op'.r[2], Rows) J == Part(op'.j[1], op'.j[2], Cols) IN
     /\ \A r \in 1..Rows, j \in 1..Cols : At(S'[p].c, r, j) = IF r \in R /\ j \in J THEN Num("2") ELSE At(S[p].c, r, j)
     /\ S'[p].c.o = S[p].c.o /\ S'[p].ty = S[p].ty
     /\ \A j \in 1..Cols : j \notin J /\ S[p].c.lab # << >> => S'[p].c.lab[j] = S[p].c.lab[j]]_vars
(* no other record changes *)
Others == [][\A p \in Names : ~(p = op'.p \/ (op'.o \in {"dup", "ren"} /\ p = op'.q)) => (p \in DOMAIN S <=> p \in DOMAIN S') /\ (p \in DOMAIN S => S'[p] = S[p])]_vars
(* only storing a whole paired data record turns a record into one of another type *)
TypeStays == [][\A p \in DOMAIN S \cap DOMAIN S' : S'[p].ty # S[p].ty => Is("whole") \/ (Is("put") /\ op'.k = "pd") \/ Is("ren")]_vars
Copied == [][Is("dup") /\ op'.p \in DOMAIN S => S'[op'.p] = S[op'.p] /\ (S' = S \/ S'[op'.q].c = S[op'.p].c)]_vars
Moved == [][Is("ren") /\ op'.p \in DOMAIN S => op'.p \notin DOMAIN S' /\ S'[op'.q].c = S[op'.p].c]_vars
=============================================================================
