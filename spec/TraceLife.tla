------------------------------ MODULE TraceLife -----------------------------
(* Validates replayed lives: agents of education e were given schedule D.lives[e+1] with  *)
(* probabilities of 0 and 1, and must have gone through the path it prescribes.           *)
EXTENDS Judge, IOUtils

Data == LoadJson(IOEnv.TRACE)
VARIABLES tid, pos
vars == <<tid, pos>>
D == Data[tid]
Emit(step, js) == AppendJson(IOEnv.OUT, [id |-> D.id, phase |-> "life", step |-> step, judgments |-> js])

\* D.seen[e+1]: the paths of the agents of education e, as sequences of <<age, partner>>
Judged(e) ==
  << Judgment("life.lived", {1}, LAMBDA x : Len(D.seen[e]) > 0, LAMBDA x : [educ |-> e]),
     Judgment("life.path", DOMAIN D.seen[e],
       LAMBDA i : D.seen[e][i] = D.lives[e].path,
       LAMBDA i : [life |-> D.lives[e], seen |-> D.seen[e][i]]) >>

Init == tid \in DOMAIN Data /\ pos = 1
Next ==
  /\ pos <= Len(D.lives) + 1
  /\ Emit(pos, IF pos <= Len(D.lives) THEN Judged(pos) ELSE << Judgment("done", {1}, LAMBDA x : TRUE, LAMBDA x : 0) >>)
  /\ pos' = pos + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
