----------------------------- MODULE Household ------------------------------
(* What a household's composition implies: age bin of the youngest child, the      *)
(* partner's earnings, the equivalence scale, child benefit and child-care costs.  *)
EXTENDS Real64

\* 0 none, 1: 0-2, 2: 3-5, 3: 6-10, 4: 11 and older
ChildBin(age) ==
  IF age < 0 THEN 0 ELSE IF age <= 2 THEN 1 ELSE IF age <= 5 THEN 2 ELSE IF age <= 10 THEN 3 ELSE 4

\* gross weekly earnings of a partner, who works 38 hours
PartnerEarnings(c, t, educ) ==
  38 \otimes RExp(RSum(<<c.cf.const, c.cf.age \otimes t, c.cf.agesq \otimes (t * t), c.cf.educ \otimes educ>>))

MaleWage(c, t, educ, partner) == IF partner = 1 THEN PartnerEarnings(c, t, educ) ELSE ToReal(0)

EquivTable == << <<ToReal(1), Dec("1.3")>>, <<Dec("1.5"), Dec("1.8")>> >>
Equivalence(age, partner) == EquivTable[partner + 1][IF age < 0 THEN 1 ELSE 2]

ChildBenefit(c, age) == IF age < 0 THEN ToReal(0) ELSE c.childBenefits

\* j = 1 part-time, j = 2 full-time
CareCost(c, age, j) ==
  LET b == ChildBin(age) IN IF b = 1 \/ b = 2 THEN c.care[b][j] ELSE ToReal(0)
=============================================================================
