----------------------------- MODULE Experience -----------------------------
(* Work experience.  It is carried as a stock in [0,1]: the share of the years that *)
(* can have been accumulated by period t, which are                                 *)
(*      expInitMax + t * Max(1, inc)                                                *)
(* where inc is the worth, in years, of one period of part-time work.               *)
EXTENDS Real64

\* believed increment: agents with biased beliefs count part-time like full-time
TrueIncrement(c, educ, age) ==
  IF age >= 0 /\ age <= 2 THEN c.gp[educ + 1] \oplus c.gpm ELSE c.gp[educ + 1]
Increment(c, educ, age, biased) == IF biased THEN ToReal(1) ELSE TrueIncrement(c, educ, age)

MaxYears(c, t, inc) == c.expInitMax \oplus RMax(t, t \otimes inc)

Years(c, stock, t, inc) == stock \otimes MaxYears(c, t, inc)

Stock(c, years, t, inc) ==
  LET m == MaxYears(c, t, inc) IN IF RLe(m, 0) THEN ToReal(years) ELSE years \oslash m

Gain(ch, inc) == IF ch = 2 THEN ToReal(1) ELSE IF ch = 1 THEN ToReal(inc) ELSE ToReal(0)

Clip01(x) == RMin(1, RMax(0, x))

UnclippedNext(c, stock, t, inc, ch) ==
  Stock(c, Years(c, stock, t, inc) \oplus Gain(ch, inc), t + 1, inc)

NextStock(c, stock, t, inc, ch) == Clip01(UnclippedNext(c, stock, t, inc, ch))

\* The wage offer: hourly, before the shock; logarithmic in years of experience.
LogWage(c, educ, years) ==
  (c.g0[educ + 1] \oplus (c.g1[educ + 1] \otimes RLn(1 \oplus years))) \oplus RLn(c.scale)
=============================================================================
