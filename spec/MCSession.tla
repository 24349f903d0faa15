------------------------------ MODULE MCSession -----------------------------
(* Sessions, with a simple machine behind the interface.  The machine keeps what an        *)
(* implementation might keep: functions that remember the model they were built for, a     *)
(* random generator, inputs that the user can still change.  Faults of the kind an          *)
(* implementation could have are switched on by Fault; without one, every answer depends     *)
(* on its key alone, which is what TraceSession checks of the real one.                      *)
EXTENDS Session

CONSTANT Fault   \* "none", "stale-params", "random-leaks", "keeps-input", "route"

VARIABLES answers,  \* what was answered: key -> set of answers
          fns,      \* what each function remembers
          noise,    \* has the global random state been used?
          edited    \* has the user changed what was passed in when the function was built?
mcvars == <<built, log, answers, fns, noise, edited>>
\* the log is history; only the last entry matters
View == <<built, answers, fns, noise, edited, Len(log), IF log = <<>> THEN <<>> ELSE <<log[Len(log)]>>>>

\* the answer a faultless machine gives is the key itself
Answer(key, i, act) ==
  CASE Fault = "stale-params" /\ i > 0 -> <<key[1], fns[i].p, key[3], key[4]>>
    [] Fault = "random-leaks" /\ noise -> <<key, "noise">>
    [] Fault = "keeps-input" /\ i > 0 /\ edited -> <<key, "edited">>
    [] Fault = "route" /\ act = "pieces" /\ key[4] -> <<key, "unbiased">>
    [] OTHER -> key

Observe(key, ans) ==
  answers' = IF key \in DOMAIN answers THEN [answers EXCEPT ![key] = @ \cup {ans}] ELSE (key :> {ans}) @@ answers

MCInit == Init /\ answers = [k \in {} |-> {}] /\ fns = <<>> /\ noise = FALSE /\ edited = FALSE

MCNext ==
  /\ Len(log) < MaxLen /\ Next
  /\ LET e == log'[Len(log')] IN
       CASE e.act = "build" ->
              /\ fns' = Append(fns, [m |-> e.key[1], p |-> e.key[2], b |-> e.key[4]])
              /\ UNCHANGED <<answers, noise, edited>>
         [] e.act = "call" ->
              /\ Observe(e.key, Answer(e.key, e.fn, e.act))
              /\ UNCHANGED <<fns, noise, edited>>
         [] e.act \in {"simulate", "pieces"} ->
              /\ Observe(e.key, Answer(e.key, 0, e.act))
              /\ UNCHANGED <<fns, noise, edited>>
         [] e.act = "disturb" ->
              /\ noise' = (noise \/ e.what = "random") /\ edited' = (edited \/ e.what = "edit-input")
              /\ UNCHANGED <<answers, fns>>
MCSpec == MCInit /\ [][MCNext]_mcvars

\* the property
Consistent == \A k \in DOMAIN answers : Cardinality(answers[k]) = 1
\* functions are only called with what they were built for
CallsFit == \A i \in DOMAIN log : log[i].act = "call" =>
   /\ log[i].fn \in DOMAIN built
   /\ log[i].key[1] = built[log[i].fn].m /\ log[i].key[4] = built[log[i].fn].b
Remembered == Len(fns) = Len(built) /\ \A i \in DOMAIN fns : fns[i].m = built[i].m
=============================================================================
