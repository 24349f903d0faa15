---------------------------- MODULE MCStateSpace ----------------------------
(* The enumeration of states is a bijection, for every small model; what follows a state  *)
(* is a state of the next period; and every state of a later period follows one of the     *)
(* period before, by every way that could lead there and no other.                          *)
EXTENDS StateSpace, TLC

CONSTANTS MaxP, MaxE, MaxT, MaxAge

VARIABLES c, s
vars == <<c, s>>

Init ==
  /\ c \in [P : 1..MaxP, E : 1..MaxE, T : 1..MaxT, ageMax : 0..MaxAge]
  /\ s \in {x \in States(c) : x.period = 0}

Live(ch, birth, m) == s.period < c.P - 1 /\ s' = Succ(c, s, ch, birth, m) /\ UNCHANGED c
Next == \E ch \in 0..2, birth \in BOOLEAN, m \in 0..1 : Live(ch, birth, m)
Spec == Init /\ [][Next]_vars

KeyOf(x) == Key(c, x.educ, x.lag, x.type, x.age, x.partner)

IsState == s \in States(c)
Addressed == KeyOf(s) \in 1..Block(c) /\ At(c, s.period, KeyOf(s)) = s
SuccAddressed ==
  \A ch \in 0..2, birth \in BOOLEAN, m \in 0..1 :
    SuccKey(c, s, ch, birth, m) = KeyOf(Succ(c, s, ch, birth, m))

\* who can have been here a period ago
Before(x) == {y \in States(c) : y.period = x.period - 1 /\ \E ch \in 0..2, b \in BOOLEAN, m \in 0..1 : Succ(c, y, ch, b, m) = x}
Predecessors == s.period > 0 =>
  Before(s) = {y \in States(c) :
     /\ y.period = s.period - 1 /\ y.educ = s.educ /\ y.type = s.type
     /\ CASE s.age = 0 -> TRUE
          [] s.age > 0 -> y.age = s.age - 1
          [] s.age = NoChild -> y.age \in {NoChild, c.ageMax}}
EverySlotUsed == \A k \in 1..Block(c) : At(c, s.period, k) \in States(c) /\ KeyOf(At(c, s.period, k)) = k
\* checked for one state of each period only, as they do not depend on it
Heavy == (s.lag = 0 /\ s.partner = 0 /\ s.educ = 0 /\ s.type = 0) => (EverySlotUsed /\ Predecessors)
=============================================================================
