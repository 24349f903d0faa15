------------------------------ MODULE GenReuse ------------------------------
(* Behaviours of Session in which a user keeps one set of objects (or files), changes     *)
(* their contents between calls of a prepared function, and then asks the same from        *)
(* scratch; and in which one question is asked in every width.  Every behaviour is checked to be one of Session's and appended to OUT.        *)
EXTENDS Session, Real64, IOUtils

VARIABLES plan, written
genvars == <<built, log, plan, written>>

Keys == Models \X Pars \X Variants \X Bias
Wide(k, f, w) == [act |-> "simulate", key |-> k, form |-> f, width |-> w]
Ask(k, f) == Wide(k, f, "full")
Call1(k, f, w) == [act |-> "call", fn |-> 1, key |-> k, form |-> f, width |-> w]

\* other parameters, then another variant, then the first again
Plans == {<< [act |-> "build", key |-> a, form |-> f, width |-> w], Call1(a, f, w), Call1(b, f, w), Call1(c, f, w), Call1(a, f, w),
             Ask(c, "dict"), Ask(b, "dict"), Ask(a, "file") >> :
            a \in Keys, b \in Keys, c \in Keys, f \in {"reuse", "refile", "dict"}, w \in Widths}
SameModel(x, y) == x[1] = y[1] /\ x[4] = y[4]

WidePlans == {<< Wide(k, "dict", w), Wide(k, "file", "sparse"), Wide(k, "dict", "full"),
                 [act |-> "build", key |-> k, form |-> "file", width |-> "sparse"], Call1(k, "dict", "sparse") >> :
                 k \in Keys, w \in Widths}

\* the user's files (or objects) now hold another model
MovePlans == {<< [act |-> "build", key |-> a, form |-> f, width |-> "full"], Wide(b, f, "full"), Call1(a, "dict", "full"),
                 Wide(a, f, "full"), Ask(a, "dict"), Ask(b, "dict") >> :
                 a \in Keys, b \in Keys, f \in {"reuse", "refile"}}

\* nothing but different questions: other models, parameters and beliefs in turn
TwinPlans == {<< Ask(a, "dict"), Ask(b, "dict"), [act |-> "build", key |-> a, form |-> "dict", width |-> "full"],
                 Call1(a, "dict", "full"), Call1(c, "dict", "full"), Ask(d, "dict") >> :
                a \in Keys, b \in Keys, c \in Keys, d \in Keys}
Only(x, y, i) == \A j \in 1..4 : x[j] = y[j] <=> j # i

GenInit ==
  /\ Init /\ written = FALSE
  /\ plan \in {p \in Plans : LET a == p[1].key  b == p[3].key  c == p[4].key
                            IN SameModel(a, b) /\ SameModel(a, c) /\ a[2] # b[2] /\ a[3] = b[3] /\ a[3] # c[3]}
             \cup WidePlans
             \cup {p \in TwinPlans : /\ Only(p[1].key, p[2].key, 1) /\ Only(p[1].key, p[5].key, 2) /\ Only(p[1].key, p[6].key, 4)}
             \cup {p \in MovePlans : p[1].key[1] # p[2].key[1] /\ p[1].key[4] = p[2].key[4]}

GenNext ==
  \/ Len(log) < Len(plan) /\ Next /\ log'[Len(log')] = plan[Len(log')] /\ UNCHANGED <<plan, written>>
  \/ Len(log) = Len(plan) /\ ~written /\ AppendJson(IOEnv.OUT, log) /\ written' = TRUE /\ UNCHANGED <<built, log, plan>>
GenSpec == GenInit /\ [][GenNext]_genvars
\* no plan is stuck half-way
Possible == Len(log) < Len(plan) => ENABLED GenNext
=============================================================================
