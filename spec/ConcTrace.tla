----------------------------- MODULE ConcTrace ------------------------------
(* Several processes use the same files.  The trace has an event at the begin *)
(* (with what the call was going to return) and at the end of every call.     *)
(* Each call takes effect at one instant between the two (linearisability):   *)
(* TLC looks for the instants.  A call of a killed process may have taken     *)
(* effect, or not, or have spoiled the record it was writing -- but no other. *)
(*   F : file -> Store state             B : file -> names a killed call may  *)
(*   W : calls begun, not yet effective  D : calls in effect, not returned    *)
(*   H : <<process, handle>> -> file         have spoiled                     *)
(*   K : file -> number of changes of it that were cut off: the record count   *)
(*       in its header may be that much low, and a catalogue that much short  *)
(* A read of a name which another process is changing meanwhile (ov) may see  *)
(* anything; every other read is exact.  lv: names of calls under way which   *)
(* never return.                                                              *)
EXTENDS Store, PathText, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Ev(i) == IF "r" \in DOMAIN Trace[i] THEN Trace[i].r ELSE Trace[i]
Texts == UNION {
   {Ev(i)[f] : f \in {"p", "q"} \cap DOMAIN Ev(i)} \cup
   (IF "l" \in DOMAIN Ev(i) THEN {Ev(i).l[j].p : j \in DOMAIN Ev(i).l} ELSE {}) : i \in 1..N}
Canon == TLCEval([s \in Texts |-> Upper(s)])
VARIABLES l, F, B, W, D, H, K
vars == <<l, F, B, W, D, H, K>>
Init == l = 1 /\ F = << >> /\ B = << >> /\ W = {} /\ D = {} /\ H = << >> /\ K = << >>
t == Trace[l]
Is(x) == l <= N /\ t.e = x
Go == l' = l + 1
Set(s) == {s[i] : i \in DOMAIN s}
Call(i) == Trace[i]                     \* i: line of the begin of the call
(* the line of the call which returns at line i *)
LineOf == TLCEval([i \in 1..N |-> IF Trace[i].e = "ret" THEN i - Trace[i].back ELSE 0])

Content(e) == [ih |-> e.ih, h2 |-> e.h2, uh |-> e.uh, v1 |-> e.v1, v2 |-> e.v2, v3 |-> e.v3, n |-> e.n, nv |-> e.nv, ln |-> e.ln, ty |-> e.ty]
Forget(S, X) == [S EXCEPT !.live = Minus(S.live, X), !.dead = Minus(S.dead, X), !.ghost = Minus(S.ghost, X)]

CUT == "cut off"                        \* in B[f]: a change of the file was once cut off

(* the possible results of call x: a set of [F, B, H] *)
Effects(x) ==
  LET c == x.c  e == x.r  ov == Set(x.ov)  lv == Set(x.lv)
      hk == <<c, e.h>>
      f == H[hk]  S == F[f]  bad == B[f] \cup lv
      P == Canon[e.p]  Q == Canon[e.q]
      same == {[F |-> F, B |-> B, H |-> H]}
      upd(T) == {[F |-> [F EXCEPT ![f] = T], B |-> B, H |-> H]}
      updb(T, b) == {[F |-> [F EXCEPT ![f] = T], B |-> [B EXCEPT ![f] = b], H |-> H]}
      vague == {Canon[e[k]] : k \in {"p", "q"} \cap DOMAIN e} \cap bad # {}
      raced == "*" \in ov \/ {Canon[e[k]] : k \in {"p", "q"} \cap DOMAIN e} \cap ov # {}
      ok(b) == IF b THEN same ELSE {}
      spoil == updb(Forget(S, {Canon[e[k]] : k \in {"p", "q"} \cap DOMAIN e}), bad \cup {CUT} \cup {Canon[e[k]] : k \in {"p", "q"} \cap DOMAIN e})
  IN CASE e.e = "open" -> IF e.st # 0 THEN {} ELSE
            {[F |-> IF e.f \in DOMAIN F THEN F ELSE Plus(F, e.f, EmptyFile), B |-> IF e.f \in DOMAIN B THEN B ELSE Plus(B, e.f, {}), H |-> Plus(H, hk, e.f)]}
       [] e.e = "close" -> IF e.st # 0 THEN {} ELSE {[F |-> F, B |-> B, H |-> Minus(H, {hk})]}
       [] e.e \in {"note", "fset"} -> same
       [] x.fault # "" /\ e.e \in {"put", "del", "ren", "dup"} /\ ~(e.e = "put" /\ e.st = 0) -> \* a system call failed: the call may fail; then nothing but its own record suffers; a put which reports success is one
            spoil
       [] e.e = "put" -> IF P \in bad THEN IF e.st = 0 THEN updb([S EXCEPT !.live = Plus(S.live, P, [c |-> Content(e), ver |-> -1, d |-> e.p])], bad \ ({P} \ lv)) ELSE same
                         ELSE IF PutAllowed(S, P, e.ty) THEN IF e.st = 0 THEN upd(PutOk(S, P, Content(e), e.p)) ELSE {} ELSE ok(e.st < 0)
       [] e.e = "get" -> IF vague \/ raced THEN same ELSE
                         IF IsLive(S, P) THEN ok(e.st = 0 /\ Content(e) = Rec(S, P).c /\ (Rec(S, P).ver < 0 \/ e.ver = Rec(S, P).ver)) ELSE ok(e.st = -1)
       [] e.e = "del" -> IF vague THEN updb(Forget(S, {P}), bad \ (IF e.st = 0 THEN {P} \ lv ELSE {})) ELSE IF e.st = DelSt(S, P) THEN upd(Del(S, P)) ELSE {}
       [] e.e = "undel" -> IF vague THEN same ELSE IF e.st \notin UndelSts(S, P) THEN {} ELSE IF e.st # 0 THEN same ELSE UNION {upd(Undel(S, P, r)) : r \in Candidates(S, P)}
       [] e.e = "ren" -> IF vague THEN spoil ELSE IF e.st = RenSt(S, P) THEN upd(Ren(S, P, Q, e.q)) ELSE {}
       [] e.e = "dup" -> IF vague \/ (raced /\ P \in ov) THEN updb(Forget(S, {Q}), bad \cup {Q, CUT}) ELSE IF CpyStOk(S, P, S, Q, e.st) THEN upd(Dup(S, P, Q, e.q)) ELSE {}
       [] e.e = "aadd" -> IF vague THEN spoil ELSE IF (e.st = 0) = AaddOk(S, P, Q) THEN upd(Aadd(S, P, Q, e.q)) ELSE {}
       [] e.e = "arem" -> IF vague THEN same ELSE IF e.st = AremSt(S, P) THEN upd(Arem(S, P)) ELSE {}
       [] e.e = "chk" -> IF vague \/ raced THEN same ELSE ok(e.st = IF IsLive(S, P) THEN 0 ELSE -1)
       [] e.e = "cat" -> LET got == {Canon[e.l[i].p] : i \in DOMAIN e.l} \ (bad \cup ov)
                                                      all == Names(S) \ (bad \cup ov)
                         IN ok("*" \in ov \/ (e.st < 0 /\ ov # {}) \/ (got \subseteq all /\ Cardinality(all \ got) <= K[f] + Cardinality(ov)))
       [] e.e = "cnt" -> ok(ov # {} \/ bad # {} \/ (\E g \in DOMAIN H : g # hk /\ H[g] = f) \/ e.st = Count(S))
       [] e.e = "zcheck" -> ok(ov # {} \/ bad # {} \/ (\E g \in DOMAIN H : g # hk /\ H[g] = f) \/ (e.a = 0 /\ e.b = 0 /\ e.c = 0 /\ e.st = 0))
       [] OTHER -> {}

Grow(k, f, c) == [x \in DOMAIN f |-> (IF x \in DOMAIN k THEN k[x] ELSE 0) + (IF x \in c THEN 1 ELSE 0)]
Reset == Is("reset") /\ Go /\ F' = << >> /\ B' = << >> /\ W' = {} /\ D' = {} /\ H' = << >> /\ K' = << >>
Begin == Is("call") /\ Go /\ W' = W \cup {l} /\ UNCHANGED <<F, B, D, H, K>>
BeginLost == Is("begin") /\ Go /\ UNCHANGED <<F, B, W, D, H, K>>
(* a call takes effect; only tried when some call is about to return without having done so *)
Lin == l <= N /\ t.e \in {"ret", "lost"} /\ (t.e = "ret" => LineOf[l] \notin D) /\ \E w \in W :
         \E s \in Effects(Call(w)) : F' = s.F /\ B' = s.B /\ H' = s.H /\ W' = W \ {w} /\ D' = D \cup {w} /\ l' = l /\ K' = Grow(K, s.F, IF Trace[w].fault # "" /\ Trace[w].r.st # 0 THEN {H[<<Trace[w].c, Trace[w].r.h>>]} ELSE {})
Return == Is("ret") /\ LineOf[l] \in D /\ Go /\ D' = D \ {LineOf[l]} /\ UNCHANGED <<F, B, W, H, K>>
(* a process is killed: what it was changing is unknown *)
Files(c) == {H[k] : k \in {h \in DOMAIN H : h[1] = c}}
Lost == Is("lost") /\ Go /\ UNCHANGED <<W, D>> /\ H' = [k \in {h \in DOMAIN H : h[1] # t.c} |-> H[k]]
        /\ LET X == Set(t.names) IN
             /\ F' = [f \in DOMAIN F |-> IF f \in Files(t.c) THEN Forget(F[f], X) ELSE F[f]]
             /\ B' = [f \in DOMAIN B |-> IF f \in Files(t.c) /\ X # {} THEN B[f] \cup X \cup {CUT} ELSE B[f]]
             /\ K' = Grow(K, F, IF X # {} THEN Files(t.c) ELSE {})
Next == Reset \/ Begin \/ BeginLost \/ Lin \/ Return \/ Lost
Spec == Init /\ [][Next]_vars
Reach2 == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
TraceAccepted == PrintT(<<"REACHED", TLCGet(1) - 1, N>>) /\ TLCGet(1) - 1 = N
=============================================================================
