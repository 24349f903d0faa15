---------------------------- MODULE TaxTransfer -----------------------------
(* The 2007 income tax, social security contributions and net household income.    *)
(* The tax is specified by its marginal rate -- zero, then linear in two            *)
(* progression zones, then constant in two proportional ones -- and is the area     *)
(* under it.  The implementation uses closed-form polynomials per bracket instead.  *)
EXTENDS Real64

Rate == <<Dec("0.15"), Dec("0.2397"), Dec("0.42"), Dec("0.45")>>
Soli == Dec("1.05")

\* area under a marginal rate rising linearly from r1 at lo to r2 at hi, up to x
Zone(x, lo, hi, r1, r2) ==
  LET w  == RMax(0, RMin(x, hi) \ominus lo)
      rx == r1 \oplus ((r2 \ominus r1) \otimes (w \oslash (hi \ominus lo)))
  IN  w \otimes ((r1 \oplus rx) \oslash 2)

IncomeTax(c, x) ==
  IF RLe(x, c.thr[1]) THEN ToReal(0)
  ELSE Zone(x, c.thr[1], c.thr[2], Rate[1], Rate[2])
       \oplus (IF RLe(x, c.thr[2]) THEN 0 ELSE Zone(x, c.thr[2], c.thr[3], Rate[2], Rate[3]))
       \oplus (IF RLe(x, c.thr[3]) THEN 0 ELSE RMin(x, c.thr[4]) \ominus c.thr[3]) \otimes Rate[3]
       \oplus (IF RLe(x, c.thr[4]) THEN 0 ELSE x \ominus c.thr[4]) \otimes Rate[4]

Contribution(c, gross) == c.sscRate \otimes RMin(gross, c.sscCap)

Taxable(c, gross) == gross \ominus Contribution(c, gross)

\* A couple is taxed on half its joint income twice (splitting) or on each income separately.
TaxDue(c, female, male) ==
  LET f == Taxable(c, female)
      m == Taxable(c, male)
  IN IF RLe(male, 0) THEN IncomeTax(c, f)
     ELSE IF c.splitting THEN 2 \otimes IncomeTax(c, (f \oplus m) \oslash 2)
     ELSE IncomeTax(c, f) \oplus IncomeTax(c, m)

NetIncome(c, female, male) ==
  (Taxable(c, female) \oplus (IF RLe(male, 0) THEN 0 ELSE Taxable(c, male)))
    \ominus (Soli \otimes TaxDue(c, female, male))
=============================================================================
