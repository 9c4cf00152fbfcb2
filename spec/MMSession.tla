------------------------------ MODULE MMSession ------------------------------
(* A whole session: the database in memory, the files, the Proof Assistant    *)
(* and the questions that protect unsaved work.                               *)
(*   loaded, store: the theorems' stored proofs [p: labels, f: form]           *)
(*   saved:  what the store was when it was last read or completely written    *)
(*   dirty:  a SAVE succeeded since then                                       *)
(*   files:  file name -> [there, st, v]                                       *)
(*   v:      which of the texts the comments come from                         *)
(*   mode "mm" | "pa" | "end";  thm, pip: theorem and labels being worked on   *)
(*   snap: pip when it was last the stored proof; touched: an edit since then  *)
(*   guard: discouraged statements are protected                               *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

Nothing == "none" :> [p |-> <<"?">>, f |-> "n"]
Closed == [thm |-> "", pip |-> <<>>, snap |-> <<>>, touched |-> FALSE]

SNew(files) == [loaded |-> FALSE, v |-> 1, store |-> Nothing, saved |-> Nothing, dirty |-> FALSE, files |-> files,
                mode |-> "mm", guard |-> TRUE] @@ Closed

Yes(a) == a # "" /\ SubSeq(a, 1, 1) \in {"y", "Y"}

(* When is the user asked, and with what outcome?                              *)
ProofLost(S) == S.mode = "pa" /\ S.pip # S.snap
MayAskProof(S) == S.mode = "pa" /\ S.touched
SourceLost(S) == S.loaded /\ S.store # S.saved
MayAskSource(S) == S.loaded /\ S.dirty

(* after a question: proceed when it was not asked or was answered with yes    *)
Asked(q, must, may, ok, go, stay) ==
  (IF may THEN {[s |-> IF ok THEN go ELSE stay, asked |-> q]} ELSE {})
  \cup (IF must THEN {} ELSE {[s |-> go, asked |-> ""]})
Quietly(s) == {[s |-> s, asked |-> ""]}

Elems(s) == {s[i] : i \in DOMAIN s}

(* pd, ud: theorems whose proof, statements whose use is discouraged           *)
Outcomes(S, c, pd, ud) ==
  CASE c.c = "read" ->
         Quietly(IF S.loaded \/ S.mode # "mm" \/ ~S.files[c.f].there THEN S
                 ELSE [S EXCEPT !.loaded = TRUE, !.v = S.files[c.f].v, !.store = S.files[c.f].st, !.saved = S.files[c.f].st, !.dirty = FALSE])
    [] c.c = "erase" ->
         IF S.mode # "mm" THEN Quietly(S)
         ELSE Asked("source", SourceLost(S), MayAskSource(S), Yes(c.ans),
                    [S EXCEPT !.loaded = FALSE, !.store = Nothing, !.saved = Nothing, !.dirty = FALSE], S)
    [] c.c = "prove" ->
         Quietly(IF S.mode # "mm" \/ ~S.loaded \/ c.t \notin DOMAIN S.store \/ (c.t \in pd /\ S.guard /\ ~c.ovr) THEN S
                 ELSE [S EXCEPT !.mode = "pa", !.thm = c.t, !.pip = S.store[c.t].p, !.snap = S.store[c.t].p, !.touched = FALSE])
    [] c.c = "edit" ->
         (* what the edit does to the proof is not this specification's concern (see MMAssist) *)
         Quietly(IF S.mode # "pa" THEN S ELSE [S EXCEPT !.pip = c.to, !.touched = TRUE])
    [] c.c = "savenew" ->
         Quietly(IF S.mode # "pa" \/ (S.thm \in pd /\ S.guard /\ ~c.ovr) THEN S
                 ELSE [S EXCEPT !.store[S.thm] = [p |-> S.pip, f |-> c.form], !.dirty = TRUE, !.snap = S.pip, !.touched = FALSE])
    [] c.c = "saveproof" ->
         Quietly(IF ~S.loaded \/ c.t \notin DOMAIN S.store THEN S
                 ELSE [S EXCEPT !.store[c.t].f = c.form, !.dirty = TRUE])
    [] c.c = "write" ->
         Quietly(IF ~S.loaded \/ ~c.can THEN S
                 ELSE [S EXCEPT !.files[c.f] = [there |-> TRUE, v |-> S.v, st |-> S.store], !.saved = S.store, !.dirty = FALSE])
    [] c.c = "exit" ->
         IF S.mode = "pa" THEN Asked("proof", ProofLost(S), MayAskProof(S), c.force \/ Yes(c.ans), Closed @@ [S EXCEPT !.mode = "mm"], S)
         ELSE IF c.paonly THEN Quietly(S)
         ELSE Asked("source", SourceLost(S), MayAskSource(S), c.force \/ Yes(c.ans), [S EXCEPT !.mode = "end"], S)
    [] c.c = "eof" ->
         (* the end of the input leaves the Proof Assistant, if need be, and then the program *)
         Quietly(Closed @@ [S EXCEPT !.mode = "end"])
    [] c.c = "guard" -> Quietly([S EXCEPT !.guard = c.on])
    [] c.c = "other" -> Quietly(S)

(* An edit uses a discouraged statement anew only when told to.  (MINIMIZE_WITH *)
(* skips discouraged statements, but the construction of a formula that is in   *)
(* the proof already may need its syntax statements again.)                     *)
EditAllowed(S, c, ud, syntax) ==
  S.mode = "pa" /\ S.guard /\ ~c.ovr /\ ~c.hist
  => (Elems(c.to) \ Elems(S.pip)) \cap (IF c.min THEN ud \ syntax ELSE ud) = {}

(* ----- what it is all for ---------------------------------------------------- *)
(* Work leaves memory only into a file, or when the user said so (or the input  *)
(* ended).                                                                      *)
NoSilentLoss(S, o, c) ==
  /\ (S.mode = "pa" /\ o.s.mode # "pa" /\ S.pip # S.store[S.thm].p) => o.asked # "" \/ c.c = "eof"
  /\ (S.loaded /\ (~o.s.loaded \/ o.s.mode = "end") /\ S.store # S.saved) => o.asked # "" \/ c.c = "eof"
(* Files change only by WRITE SOURCE. *)
FilesByWriteOnly(S, o, c) == o.s.files # S.files => c.c = "write" /\ c.can
=============================================================================
