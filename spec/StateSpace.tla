----------------------------- MODULE StateSpace -----------------------------
(* The discrete states of the model and their enumeration.                         *)
(* A state is [period, educ, lag, type, age, partner]; age = -1 means no child.    *)
EXTENDS Integers, Sequences, FiniteSets

NoChild == -1

Ages(c) == NoChild..c.ageMax

\* position of a child age along the age axis: 0..ageMax first, "no child" last (0-based)
AgePos(c, a) == IF a = NoChild THEN c.ageMax + 1 ELSE a
AgeAt(c, pos) == IF pos = c.ageMax + 1 THEN NoChild ELSE pos

States(c) ==
  [period : 0..(c.P - 1), educ : 0..(c.E - 1), lag : 0..2, type : 0..(c.T - 1),
   age : Ages(c), partner : 0..1]

\* number of states of one period
Block(c) == c.E * 3 * c.T * (c.ageMax + 2) * 2

\* canonical position 1..Block(c) of a state within its period, and its inverse
Key(c, educ, lag, type, age, partner) ==
  ((((educ * 3 + lag) * c.T + type) * (c.ageMax + 2)) + AgePos(c, age)) * 2 + partner + 1

At(c, t, k) ==
  LET i == k - 1
      a == c.ageMax + 2
  IN [period  |-> t,
      partner |-> i % 2,
      age     |-> AgeAt(c, (i \div 2) % a),
      type    |-> ((i \div 2) \div a) % c.T,
      lag     |-> (((i \div 2) \div a) \div c.T) % 3,
      educ    |-> (((i \div 2) \div a) \div c.T) \div 3]

\* The youngest child one period on: a birth makes it 0; otherwise it is a year older, and
\* leaves the model on outgrowing the maximal age.
NextAge(c, age, birth) ==
  IF birth THEN 0
  ELSE IF age = NoChild \/ age + 1 > c.ageMax THEN NoChild
  ELSE age + 1

\* the state reached from s by choice ch, with or without a birth, with partner status m
Succ(c, s, ch, birth, m) ==
  [period |-> s.period + 1, educ |-> s.educ, lag |-> ch, type |-> s.type,
   age |-> NextAge(c, s.age, birth), partner |-> m]

SuccKey(c, s, ch, birth, m) == Key(c, s.educ, ch, s.type, NextAge(c, s.age, birth), m)
=============================================================================
