-------------------------------- MODULE MCTax -------------------------------
(* The tax system on a grid of incomes that contains every kink and its neighbourhood.     *)
EXTENDS TaxTransfer, MCBase, TLC, FiniteSets

CONSTANTS Steps     \* incomes per bracket

Edges == <<ToReal(0)>> \o Small.thr \o <<ToReal(12000)>>
Points == [i \in 0..(5 * Steps) |->
   LET b == i \div Steps
       lo == Edges[IF b = 5 THEN 5 ELSE b + 1]
       hi == Edges[IF b = 5 THEN 6 ELSE b + 2]
       k == IF b = 5 THEN Steps ELSE i % Steps
   IN lo \oplus ((hi \ominus lo) \otimes RDiv(k, Steps))]
X == TLCEval(Points)
Last == 5 * Steps

VARIABLES i, j, split
vars == <<i, j, split>>
c == [Small EXCEPT !.splitting = split]

Init == i \in 0..Last /\ j = 0 /\ split \in BOOLEAN
Next == j < Last /\ j' = j + 1 /\ UNCHANGED <<i, split>>
Spec == Init /\ [][Next]_vars

Eps == Dec("1e-9")
T(x) == IncomeTax(c, x)
f == X[i]
m == X[j]

\* marginal rates lie between 0 and 45 per cent, and the tax rises nowhere faster
Marginal == (i < Last /\ j = 0) =>
  LET d == T(X[i + 1]) \ominus T(X[i])
  IN RLe(0, d) /\ RLe(d, (Dec("0.45") \otimes (X[i + 1] \ominus X[i])) \oplus Eps)
Progressive == (i > 0 /\ i < Last /\ j = 0 /\ RLt(X[i - 1], X[i]) /\ RLt(X[i], X[i + 1])) =>
  LET r(k) == (T(X[k + 1]) \ominus T(X[k])) \oslash (X[k + 1] \ominus X[k])
  IN RLe(r(i - 1), r(i) \oplus Eps)
Exempt == RLe(f, c.thr[1]) => REq(T(f), 0)
Continuous == \A k \in 1..4 : Close(T(c.thr[k] \ominus Dec("1e-7")), T(c.thr[k] \oplus Dec("1e-7")), Dec("1e-6"))
\* contributions rise up to the ceiling and stop there
Capped == /\ RLe(Contribution(c, f), c.sscRate \otimes c.sscCap \oplus Eps)
          /\ (RLe(f, c.sscCap) => Close(Contribution(c, f), c.sscRate \otimes f, Eps))
\* net income: between nothing and gross, rising in either's earnings
Net == LET n == NetIncome(c, f, m) IN
  /\ RLe(0, n) /\ RLe(n, f \oplus m)
  /\ (i < Last => RLe(n, NetIncome(c, X[i + 1], m) \oplus Eps))
  /\ (j < Last => RLe(n, NetIncome(c, f, X[j + 1]) \oplus Eps))
\* splitting never costs a couple anything, gains it nothing when both earn the same, and is
\* symmetric in positive earnings; singles are not concerned
Joint == LET s(a, b) == NetIncome([c EXCEPT !.splitting = TRUE], a, b)
             n(a, b) == NetIncome([c EXCEPT !.splitting = FALSE], a, b)
         IN /\ RLe(n(f, m), s(f, m) \oplus Eps)
            /\ (i = j => Close(n(f, m), s(f, m), Eps))
            /\ ((i > 0 /\ j > 0) => Close(s(f, m), s(m, f), Eps) /\ Close(n(f, m), n(m, f), Eps))
            /\ (j = 0 => Close(s(f, m), n(f, m), Eps))
=============================================================================
