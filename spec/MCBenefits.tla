----------------------------- MODULE MCBenefits -----------------------------
(* Transfers for every household composition, history and a range of wages.  *)
EXTENDS Bellman, MCBase

CONSTANTS Wages, Males   \* sizes of the grids

VARIABLES lag, age, partner, w, y, regime
vars == <<lag, age, partner, w, y, regime>>

Init == lag \in 0..2 /\ age \in -1..11 /\ partner \in 0..1 /\ w = 0 /\ y \in 0..Males /\ regime \in BOOLEAN
        /\ (partner = 0 => y = 0)
Next == w < Wages /\ w' = w + 1 /\ UNCHANGED <<lag, age, partner, y, regime>>
Spec == Init /\ [][Next]_vars

c == [Small EXCEPT !.elterngeld = regime]
lw(i) == Dec("0.5") \oplus RDiv(4 * i, Wages)
male == IF partner = 1 THEN RDiv(1500 * y, Males) \oplus 50 ELSE ToReal(0)
Eps == Dec("1e-9")
B == NonEmploymentBenefit(c, lag, age, partner, lw(w), male)
kids == IF age < 0 THEN ToReal(0) ELSE c.childBenefits

Floor == RLe(Alg2(c, age, partner), B) /\ (partner = 0 => RLe(c.regelSingle \oplus c.housingSingle, B))
\* those without a partner's support or a recent job have the minimum and nothing else
Minimum == (lag = 0 /\ (regime \/ age \notin {0, 1})) => Close(B, Alg2(c, age, partner), Eps)
\* parental allowance: only for babies, within its bounds
Parental == (regime /\ age = 0 /\ lag > 0) =>
  /\ RLe(c.egMin \oplus kids, B) /\ (partner = 1 => RLe(B, c.egMax \oplus kids \oplus Eps))
\* the flat allowance goes to small children below the income limit
Flat == ~regime =>
  LET rest == RMax(Alg1(c, lag, age, lw(w)), Alg2(c, age, partner))
      extra == B \ominus rest
  IN IF age \in {0, 1} /\ RLe(male \oplus rest, IF partner = 1 THEN c.erzMarried ELSE c.erzSingle)
     THEN Close(extra, c.erz, Eps) ELSE Close(extra, 0, Eps)
\* benefits rise with the last wage (as long as the flat allowance is not lost)
Rises == (w < Wages /\ (regime \/ age \notin {0, 1})) => RLe(B, NonEmploymentBenefit(c, lag, age, partner, lw(w + 1), male) \oplus Eps)
\* regimes agree on all who have no baby
SameForOthers == (age \notin {0, 1}) =>
  Close(B, NonEmploymentBenefit([c EXCEPT !.elterngeld = ~regime], lag, age, partner, lw(w), male), Eps)
\* working households: more gross is more to spend; care costs only for the young
Working == \A jj \in 1..2 :
  LET R(g) == WorkResources(c, age, partner, g, male, jj) IN
  /\ (regime => RLe(R(ToReal(100)), R(ToReal(200))))
  /\ (age > 5 \/ age < 0) => Close(R(ToReal(100)), NetIncome(c, ToReal(100), male) \oplus kids, Eps)
  /\ (age \in 0..5 /\ (regime \/ jj = 2 \/ age > 1)) => RLt(R(ToReal(100)), NetIncome(c, ToReal(100), male) \oplus kids)
\* bins partition the ages
Bins == /\ (ChildBin(age) = 0 <=> age < 0) /\ ChildBin(age) \in 0..4
        /\ (age >= 0 /\ age < 11 => ChildBin(age) <= ChildBin(age + 1))
Scale == RLe(Equivalence(-1, partner), Equivalence(age, partner)) /\ RLe(Equivalence(age, 0), Equivalence(age, partner))
=============================================================================
