----------------------------- MODULE Preferences ----------------------------
(* Utility: CRRA in equivalised consumption, scaled by a factor for work that       *)
(* depends on education, unobserved type and the age of the youngest child.         *)
EXTENDS Real64, Household

\* exponents of the full-time component and of the additional part-time component
FullTerm(c, educ, bin) ==
  IF bin = 0 THEN c.noF[educ + 1]
  ELSE IF bin <= 3 THEN c.yesF[educ + 1] \oplus c.kidF[bin] ELSE c.yesF[educ + 1]
PartTerm(c, educ, bin) ==
  IF bin = 0 THEN c.noP[educ + 1]
  ELSE IF bin <= 3 THEN c.yesP[educ + 1] \oplus c.kidP[bin] ELSE c.yesP[educ + 1]

\* ch = 0, 1, 2: the multiplier on consumption utility
WorkFactor(c, educ, type, age, ch) ==
  LET b == ChildBin(age)
  IN CASE ch = 0 -> ToReal(1)
       [] ch = 1 -> RExp(c.thP[type + 1] \oplus FullTerm(c, educ, b) \oplus PartTerm(c, educ, b))
       [] ch = 2 -> RExp(c.thF[type + 1] \oplus FullTerm(c, educ, b))

Utility(c, consumption, factor) == (RPow(consumption, c.mu) \oslash c.mu) \otimes factor
=============================================================================
