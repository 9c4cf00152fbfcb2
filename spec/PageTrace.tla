------------------------------ MODULE PageTrace ------------------------------
(* Trace validation of web pages.  One line per database: [db |-> statements,    *)
(* lab3 |-> [label |-> first characters], com |-> [label |-> pieces of comment],  *)
(* cert |-> [label |-> <<[m, c]>>: formulas and their derivations],               *)
(* obs |-> [label |-> <<[page |-> what the page says]>>]].                         *)
EXTENDS MMPages, Json, IOUtils

DBs == TLCEval(ndJsonDeserialize(IOEnv.TRACE_FILE))
Env == TLCEval([e \in 1..Len(DBs) |-> TLCEval([lab3 |-> DBs[e].lab3] @@ ReadAll(DBs[e].db))])
Proved(e) == {i \in DOMAIN DBs[e].db : DBs[e].db[i].k = "p"}
Lab(e, i) == DBs[e].db[i].l
AllSteps == TLCEval([e \in 1..Len(DBs) |->
               [l \in {Lab(e, i) : i \in Proved(e)} |->
                  LET i == CHOOSE i \in Proved(e) : Lab(e, i) = l IN TLCEval(Steps(Env[e], l, DBs[e].db[i].pf))]])
Deps == TLCEval([e \in 1..Len(DBs) |-> [l \in DOMAIN AllSteps[e] |-> TLCEval(DepOf(Env[e], l, AllSteps[e][l].st))]])

Cases == {<<e, l>> \in UNION {{<<e, l>> : l \in DOMAIN DBs[e].obs} : e \in 1..Len(DBs)} : TRUE}

VARIABLES d, T, k, p
vars == <<d, T, k, p>>
St == IF T \in DOMAIN AllSteps[d] THEN AllSteps[d][T].st ELSE <<>>
Good == /\ \A l \in DOMAIN AllSteps[d] : ~AllSteps[d][l].bad
        /\ \A i \in DOMAIN DBs[d].cert[T] : Derives(Derive(Env[d], T, DBs[d].cert[T][i].c), <<"wff">> \o Tail(DBs[d].cert[T][i].m))
NoPage == [kind |-> "?"]

Init == \E c \in Cases : d = c[1] /\ T = c[2] /\ k = 0 /\ p = NoPage
Written == /\ k = 0 /\ k' = 1
           /\ p' = IF Good THEN Page(Env[d], Deps[d], T, St, DBs[d].cert[T], DBs[d].com[T]) ELSE NoPage
           /\ UNCHANGED <<d, T>>
Read == k > 0 /\ k <= Len(DBs[d].obs[T]) /\ k' = k + 1 /\ UNCHANGED <<d, T, p>>
Next == Written \/ Read
Spec == Init /\ [][Next]_vars

Groups(g) == {x \in {Elems(g[i]) : i \in DOMAIN g} : TRUE}
Seen(o) == [o EXCEPT !.pairs = UNION {Pairs(o.pairs[i]) : i \in DOMAIN o.pairs},
                     !.subst = {[v |-> o.subst[i].v, s |-> Elems(o.subst[i].s)] : i \in DOMAIN o.subst},
                     !.dummies = Elems(o.dummies), !.gaps = Elems(o.gaps)]
Twice(o) == Cardinality(Elems(o.subst)) # Len(o.subst) \/ Cardinality(Elems(o.dummies)) # Len(o.dummies)
            \/ Cardinality(Elems(o.gaps)) # Len(o.gaps)
Wrong(o) == LET s == Seen(o) IN
            {x \in DOMAIN p : s[x] # p[x]} \cup (IF Twice(o) THEN {"twice"} ELSE {})
            \* the number shown beside a label is that label's
            \cup (IF \A i \in DOMAIN o.nums : o.nums[i].l \in DOMAIN Env[d].frm /\ Env[d].frm[o.nums[i].l].pos = o.nums[i].n
                  THEN {} ELSE {"nums"})
Report == k > 1 =>
   LET o == DBs[d].obs[T][k - 1]
       v == IF p.kind = "?" THEN <<"unfit">>
            ELSE IF ~Sound(Env[d], T, St, p) THEN <<"unsound">>
            ELSE LET w == TLCEval(Wrong(o)) IN IF w = {} THEN <<"same">> ELSE <<"differs", w, ToString([x \in w \cap DOMAIN p |-> p[x]])>>
   IN PrintT("@@" \o ToJson(<<IF v[1] \in {"same", "unfit"} THEN "ACCEPT" ELSE "REJECT", d, T, k - 1, v>>))
=============================================================================
