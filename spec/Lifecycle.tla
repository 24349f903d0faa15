----------------------------- MODULE Lifecycle ------------------------------
(* A woman's life, discretely: which initial states and which steps are legal.      *)
(* rows carry the fields                                                            *)
(*   p period, e educ, l lag, ty type, a age of youngest child, m partner,          *)
(*   ept, eft  periods worked part-time and full-time, ch the choice made           *)
EXTENDS Real64, StateSpace

Alive(c, entry) == IF entry >= c.P THEN 0 ELSE c.P - entry     \* number of rows

LegalRow(c, r) ==
  /\ r.p \in 0..(c.P - 1) /\ r.e \in 0..(c.E - 1) /\ r.l \in 0..2
  /\ r.ty \in 0..(c.T - 1) /\ r.a \in Ages(c) /\ r.m \in 0..1 /\ r.ch \in 0..2
  /\ r.ept >= 0 /\ r.eft >= 0

\* Initial conditions have positive share in the tables.
LegalStart(c, r) ==
  /\ r.p = c.educYears[r.e + 1]
  /\ RLt(0, c.educShares[r.e + 1])
  /\ r.a \in -1..c.ageInitMax /\ RLt(Dec("1e-12"), c.childShares[r.e + 1][r.a + 2])
  /\ r.ept \in 0..c.expInitMax /\ RLt(Dec("1e-12"), c.ptShares[r.e + 1][r.ept + 1])
  /\ r.eft \in 0..c.expInitMax /\ RLt(Dec("1e-12"), c.ftShares[r.e + 1][r.eft + 1])
  /\ (r.m = 1 => RLt(0, c.partnerShares[r.e + 1]))
  /\ (r.m = 0 => RLt(c.partnerShares[r.e + 1], 1))
  /\ RLt(0, c.typeShares[r.ty + 1])

\* Employment status before entry, from the initial years of experience.
StartLag(years) ==
  LET whole == ToReal(RFloor(years))
      frac  == RLt(Dec("1e-8"), RAbs(years \ominus whole))
  IN IF frac THEN 1 ELSE IF RLt(1, years) THEN 2 ELSE 0

\* A birth takes place with the probability of the period in which the child is born.
BirthProb(c, t, educ) == IF t + 1 > c.P - 1 \/ t + 1 > c.lastBear THEN ToReal(0) ELSE c.birth[t + 2][educ + 1]

AgeStep(c, r, s) ==
  LET pb == BirthProb(c, r.p, r.e)
      grown == NextAge(c, r.a, FALSE)
  IN \/ (s.a = grown /\ RLt(pb, 1))
     \/ (s.a = 0 /\ RLt(0, pb))

PartnerStep(c, r, s) ==
  LET arr == c.arrive[r.p + 1][r.e + 1]
      sep == c.part[r.p + 1][r.e + 1]
  IN CASE r.m = 0 /\ s.m = 0 -> RLt(arr, 1)
       [] r.m = 0 /\ s.m = 1 -> RLt(0, arr)
       [] r.m = 1 /\ s.m = 0 -> RLt(0, sep)
       [] r.m = 1 /\ s.m = 1 -> RLt(sep, 1)

ClockStep(r, s) == s.p = r.p + 1 /\ s.e = r.e /\ s.ty = r.ty
LagStep(r, s)   == s.l = r.ch
CountStep(r, s) ==
  /\ s.ept = r.ept + (IF r.ch = 1 THEN 1 ELSE 0)
  /\ s.eft = r.eft + (IF r.ch = 2 THEN 1 ELSE 0)
=============================================================================
