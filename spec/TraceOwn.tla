------------------------------- MODULE TraceOwn -------------------------------
(***************************************************************************)
(* Trace validation for OwnMachine.  Every event carries a snapshot of all *)
(* live handles and of the buffers they hold, taken after the operation.   *)
(***************************************************************************)
EXTENDS OwnMachine, Json, IOUtils
VARIABLES s, l, ok

Sess == ndJsonDeserialize(IOEnv.TRACE)
Ev(i, k) == Sess[i].ev[k]

\* snapshots
EnvOf(e) == [t \in {e.env[i].t : i \in DOMAIN e.env} |->
               LET r == e.env[CHOOSE i \in DOMAIN e.env : e.env[i].t = t]
               IN  [k |-> r.k, b |-> r.b, sh |-> r.sh, ad |-> r.ad, from |-> r.from]]
HeapOf(e) == [b \in {e.heap[i].b : i \in DOMAIN e.heap} |-> e.heap[CHOOSE i \in DOMAIN e.heap : e.heap[i].b = b].v]
CountsOk(e) == \A i \in DOMAIN e.env : e.env[i].k = "arc" =>
                  e.env[i].cnt = Cardinality(Holders(EnvOf(e), e.env[i].b))
WellFormed(e) == LET E == EnvOf(e)  H == HeapOf(e) IN
    /\ \A t \in DOMAIN E : Len(E[t].ad) = Prod(E[t].sh) /\ \A i \in DOMAIN E[t].ad : E[t].ad[i] \in DOMAIN H[E[t].b]
    /\ \A t \in DOMAIN E : E[t].k \in {"owned", "cowO", "vec"} => Holders(E, E[t].b) = {t}
    /\ CountsOk(e)
\* handles that are neither consumed nor written stay exactly as they are, contents of hidden cells included
Unaffected(E, H, S) == \A t \in S : t \in DOMAIN E /\ E[t] = env[t] /\ H[E[t].b] = heap[env[t].b]

StepRight(e) ==
    LET m == Meaning(e.op, e.h, e.g, e.x)
        E == EnvOf(e)
        H == HeapOf(e)
        rest == DOMAIN env \ m.gone
    IN
    /\ m.ok /\ e.r.k = "ok" /\ WellFormed(e)
    /\ Unaffected(E, H, rest)
    /\ IF m.k = "none" THEN DOMAIN E = rest
       ELSE LET r == E[e.t] IN
            /\ DOMAIN E = rest \cup {e.t} /\ e.t \notin DOMAIN env
            /\ r.k = m.k /\ r.sh = m.sh /\ ValIn(H, r) = m.val
            /\ IF r.b \in m.same THEN m.pure => H[r.b] = heap[r.b]
               ELSE ~m.must /\ r.b \notin DOMAIN heap
            /\ m.keepl => r.ad = env[e.h].ad /\ H[r.b] = heap[env[e.h].b]
            \* a fresh copy holds the addressed elements and nothing else
            /\ r.b \notin DOMAIN heap /\ ~m.keepl => Len(H[r.b]) = Prod(m.sh)
WriteRight(e) ==
    LET E == EnvOf(e)
        H == HeapOf(e)
    IN
    /\ WriteOn(e.op, e.h, e.g) /\ e.r.k = "ok" /\ WellFormed(e)
    /\ DOMAIN E = DOMAIN env
    /\ Unaffected(E, H, DOMAIN env \ {e.h})
    /\ E[e.h] = [env[e.h] EXCEPT !.b = E[e.h].b]
    /\ E[e.h].b \in (IF WriteSame(e.h) = {} THEN {} ELSE {env[e.h].b}) \/ E[e.h].b \notin DOMAIN heap
    /\ H[E[e.h].b] = Put(heap[env[e.h].b], env[e.h].ad, WriteVal(e.op, e.h, e.g, e.x))

Fail(e) == /\ PrintT("FAIL " \o ToString(s) \o " " \o ToString(l) \o " " \o
                ToString([env |-> env, heap |-> heap,
                          m |-> IF e.e = "step" THEN Meaning(e.op, e.h, e.g, e.x) ELSE [ok |-> TRUE]]))
           /\ ok' = FALSE
           /\ UNCHANGED <<heap, env>>
Init == /\ s \in 1 .. Len(Sess)
        /\ l = 1
        /\ heap = [b \in {} |-> <<>>]
        /\ env = [t \in {} |-> <<>>]
        /\ ok = TRUE
Step(e) ==
    LET good == CASE e.e = "new" -> WellFormed(e) /\ HeapOf(e)[1] = [c \in DOMAIN HeapOf(e)[1] |-> c]
                  [] e.e = "step" -> StepRight(e)
                  [] e.e = "write" -> WriteRight(e)
    IN  IF good THEN ok' = TRUE /\ env' = EnvOf(e) /\ heap' = HeapOf(e) ELSE Fail(e)
Next == /\ ok
        /\ l <= Len(Sess[s].ev)
        /\ l' = l + 1
        /\ s' = s
        /\ Step(Ev(s, l))
vars == <<heap, env, s, l, ok>>
Spec == Init /\ [][Next]_vars
Safe == ok => Ownership
===============================================================================
