------------------------------- MODULE GenLife ------------------------------
(* All ways in which a household can develop over a few periods: the youngest child's   *)
(* age and the partner's presence, under every schedule of births, arrivals and          *)
(* separations.  Each complete life is appended to OUT as a script for the               *)
(* implementation: the schedule (probabilities of 0 and 1) and the path it must produce. *)
EXTENDS StateSpace, Real64, TLC, IOUtils

CONSTANTS P, AgeMax, AgeInitMax

c == [ageMax |-> AgeMax, P |-> P]

VARIABLES t, age, partner, births, moves, path, written
vars == <<t, age, partner, births, moves, path, written>>

Init ==
  /\ t = 0 /\ age \in -1..AgeInitMax /\ partner \in 0..1
  /\ births = <<>> /\ moves = <<>> /\ path = << <<age, partner>> >> /\ written = FALSE

\* birth: is a child born in period t + 1?  move: does the partner come or go?
Live(birth, move) ==
  /\ t < P - 1
  /\ t' = t + 1
  /\ age' = NextAge(c, age, birth)
  /\ partner' = IF move THEN 1 - partner ELSE partner
  /\ births' = Append(births, birth)
  /\ moves' = Append(moves, move)
  /\ path' = Append(path, <<age', partner'>>)
  /\ UNCHANGED written

Write ==
  /\ t = P - 1 /\ ~written
  /\ AppendJson(IOEnv.OUT, [births |-> births, moves |-> moves, path |-> path])
  /\ written' = TRUE /\ UNCHANGED <<t, age, partner, births, moves, path>>

Next == (\E b \in BOOLEAN, m \in BOOLEAN : Live(b, m)) \/ Write
Spec == Init /\ [][Next]_vars

\* a child's age is either that of the last birth or of the initial child, or gone
Sound ==
  /\ age \in -1..AgeMax
  /\ Len(path) = t + 1 /\ Len(births) = t
  /\ LET B == {i \in 1..t : births[i]} IN
       IF B # {} THEN LET last == CHOOSE i \in B : \A j \in B : j <= i IN
                       age = (IF t - last <= AgeMax THEN t - last ELSE -1)
       ELSE age = (IF path[1][1] = -1 \/ path[1][1] + t > AgeMax THEN -1 ELSE path[1][1] + t)
  /\ partner = (path[1][2] + Cardinality({i \in 1..t : moves[i]})) % 2
=============================================================================
