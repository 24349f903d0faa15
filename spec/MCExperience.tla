---------------------------- MODULE MCExperience ----------------------------
(* Experience as a transition system: the stock that the model carries, next to the exact *)
(* number of years worked (in hundredths), under every sequence of choices and every       *)
(* pattern of a mother's bonus coming and going.                                            *)
(* Lemma: the stock tells the exact years except after one of two events, which are those   *)
(* recorded as known findings -- a stock cut off at 1, or a change in the maximal years.    *)
EXTENDS Experience, MCBase, TLC

CONSTANTS Periods

VARIABLES t, own, bonus, imax, mother, years, x, lost
vars == <<t, own, bonus, imax, mother, years, x, lost>>

H(n) == RDiv(n, 100)
Inc(m) == H(own + (IF m THEN bonus ELSE 0))
cc == [Small EXCEPT !.expInitMax = imax]

Init ==
  /\ t = 0 /\ own \in {0, 20, 70, 100} /\ bonus \in {0, 10, 60} /\ imax \in 0..2 /\ mother \in BOOLEAN
  /\ \E pt \in 0..imax, ft \in 0..imax :
       /\ years = pt * (own + (IF mother THEN bonus ELSE 0)) + ft * 100
       /\ x = Stock(cc, H(years), 0, Inc(mother))
  /\ lost = FALSE

\* work ch this period; be a mother of a small child, or not, in the next
Live(ch, next) ==
  /\ t < Periods - 1
  /\ t' = t + 1
  /\ mother' = next
  /\ years' = years + (IF ch = 2 THEN 100 ELSE IF ch = 1 THEN own + (IF mother THEN bonus ELSE 0) ELSE 0)
  /\ x' = NextStock(cc, x, t, Inc(mother), ch)
  /\ lost' = (\/ lost
              \/ RLt(1, UnclippedNext(cc, x, t, Inc(mother), ch) \ominus Dec("1e-9"))
              \/ RLt(Dec("1e-9"), RAbs(MaxYears(cc, t + 1, Inc(mother)) \ominus MaxYears(cc, t + 1, Inc(next)))))
  /\ UNCHANGED <<own, bonus, imax>>
Next == \E ch \in 0..2, next \in BOOLEAN : Live(ch, next)
Spec == Init /\ [][Next]_vars

\* in every state that was stepped to, the stock is a share
Share == RLe(0, x) /\ (t > 0 => RLe(x, 1))
Tells == ~lost => Close(Years(cc, x, t, Inc(mother)), H(years), Dec("1e-9"))
\* nobody who starts with at most the initial maximum ever hits the ceiling
Fits == (years <= 100 * (imax + t)) => ~RLt(1 \oplus Dec("1e-9"), Stock(cc, H(years), t, Inc(mother)))
\* more work never means less experience next period
Ordered == LET z(ch) == NextStock(cc, x, t, Inc(mother), ch)
           IN /\ RLe(z(0), z(1)) /\ RLe(z(0), z(2))
              /\ (own + (IF mother THEN bonus ELSE 0) <= 100 => RLe(z(1), z(2) \oplus Dec("1e-12")))
\* biased beliefs do not understate what part-time work is worth unless it is worth more than a year
Belief == RLe(Increment(cc, 0, IF mother THEN 1 ELSE -1, FALSE), 1) => RLe(TrueIncrement(cc, 0, 1), Increment(cc, 0, 1, TRUE))
\* stock and years are inverse to each other wherever there can be any
Inverse == RLt(0, MaxYears(cc, t, Inc(mother))) => Close(Stock(cc, Years(cc, x, t, Inc(mother)), t, Inc(mother)), x, Dec("1e-12"))
\* wages rise with experience and are flat where it pays nothing
Wage == LET w(n) == LogWage(cc, 0, n) IN RLe(w(H(years)), w(H(years + 50)))
=============================================================================
