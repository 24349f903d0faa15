----------------------------- MODULE GenSession -----------------------------
(* Behaviours of Session as scripts for the implementation: run with -simulate; every   *)
(* complete behaviour is appended to OUT.  A session asks a few questions repeatedly.    *)
EXTENDS Session, Real64, IOUtils

VARIABLES pool, written
genvars == <<built, log, pool, written>>

Keys == Models \X Pars \X Variants \X Bias

GenInit ==
  /\ Init /\ written = FALSE
  /\ pool \in {S \in SUBSET Keys : Cardinality(S) = 3}
                \cup {S \in SUBSET Keys : Cardinality(S) = 2 /\ Cardinality({<<k[1], k[4]>> : k \in S}) = 1}

Focused == LET e == log'[Len(log')] IN "key" \in DOMAIN e => e.key \in pool

GenNext ==
  \/ Len(log) < MaxLen /\ Next /\ Focused /\ UNCHANGED <<pool, written>>
  \/ Len(log) = MaxLen /\ ~written /\ AppendJson(IOEnv.OUT, log) /\ written' = TRUE /\ UNCHANGED <<built, log, pool>>

GenSpec == GenInit /\ [][GenNext]_genvars
=============================================================================
