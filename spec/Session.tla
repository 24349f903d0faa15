------------------------------- MODULE Session ------------------------------
(* A user's session with the package: functions are built, called, built on again,     *)
(* while the world around them changes (random state, the user's own copies of inputs  *)
(* and outputs).  What an observation must equal depends only on its key: what was      *)
(* asked, never on the route, the form of the input, or what happened before.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Models,    \* structures: specification + parameter shape
          Pars,      \* parameter sets
          Variants,  \* seeds and numbers of agents
          MaxLen

Bias   == {TRUE, FALSE}
Forms  == {"dict", "file",       \* inputs as objects, or as files,
           "reuse", "refile"}    \* the user's one object or file with its contents replaced
Widths == {"full", "sparse"}     \* all output columns, or the minimal ones

\* what the outcome of a question may depend on
KeyOf(m, p, v, b) == <<m, p, v, b>>

VARIABLES built,   \* functions at hand: sequence of [m, b, width]
          log      \* what has been done
vars == <<built, log>>

Init == built = <<>> /\ log = <<>>

Do(entry) == log' = Append(log, entry)

\* one call from inputs to data
Simulate == \E m \in Models, p \in Pars, v \in Variants, b \in Bias, f \in Forms, w \in Widths :
  /\ Do([act |-> "simulate", key |-> KeyOf(m, p, v, b), form |-> f, width |-> w])
  /\ UNCHANGED built

\* prepare a function that can be called with other parameters ...
Build == \E m \in Models, p \in Pars, v \in Variants, b \in Bias, f \in Forms, w \in Widths :
  /\ Len(built) < 2
  /\ Do([act |-> "build", key |-> KeyOf(m, p, v, b), form |-> f, width |-> w])
  /\ built' = Append(built, [m |-> m, b |-> b, width |-> w])

\* ... and call it
Call == \E i \in DOMAIN built, p \in Pars, v \in Variants, f \in Forms :
  /\ Do([act |-> "call", fn |-> i, key |-> KeyOf(built[i].m, p, v, built[i].b), form |-> f, width |-> built[i].width])
  /\ UNCHANGED built

\* the same from the building blocks: read, solve, simulate
Pieces == \E m \in Models, p \in Pars, v \in Variants, b \in Bias, f \in Forms :
  /\ Do([act |-> "pieces", key |-> KeyOf(m, p, v, b), form |-> f, width |-> "full"])
  /\ UNCHANGED built

\* things that must make no difference
Disturb == \E what \in {"random", "edit-input", "edit-output"} :
  /\ Len(log) > 0 /\ log[Len(log)].act \in {"simulate", "build", "call"}
  /\ Do([act |-> "disturb", what |-> what])
  /\ UNCHANGED built

Next == Len(log) < MaxLen /\ (Simulate \/ Build \/ Call \/ Pieces \/ Disturb)
Spec == Init /\ [][Next]_vars
=============================================================================
