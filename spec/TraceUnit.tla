------------------------------ MODULE TraceUnit -----------------------------
(* Validates answers of the implementation's public functions, point by point: taxes,  *)
(* contributions, net income, experience, wages, non-employment resources,             *)
(* interpolation, continuation values, integration rules, unit conversions.            *)
(* Every entry of a list is a record of arguments and the answer `y'; a function with   *)
(* two implementations (scalar and vectorised) has two lists.                           *)
EXTENDS Bellman, SpecReader, Judge, IOUtils

Data == LoadJson(IOEnv.TRACE)
N    == Len(Data)
C    == TLCEval([i \in 1..N |-> Model(Data[i].raw)])

VARIABLES tid, pos
vars == <<tid, pos>>

c == C[tid]
D == Data[tid]
Emit(step, js) == AppendJson(IOEnv.OUT, [id |-> D.id, phase |-> "unit", step |-> step, judgments |-> js])

\* The verdict on list `name': answers are equal to Want(arguments).
Check(clause, name, Want(_)) ==
  LET L == IF name \in DOMAIN D.calls THEN D.calls[name] ELSE <<>>
  IN Judgment(clause, DOMAIN L, LAMBDA i : Same(L[i].y, Want(L[i])),
              LAMBDA i : [call |-> L[i], want |-> Want(L[i])])

Holds(clause, name, Ok(_)) ==
  LET L == IF name \in DOMAIN D.calls THEN D.calls[name] ELSE <<>>
  IN Judgment(clause, DOMAIN L, LAMBDA i : Ok(L[i]), LAMBDA i : [call |-> L[i]])

WithSplitting(b) == [c EXCEPT !.splitting = b]

Taxes == <<
  Check("unit.tax.scalar", "taxScalar", LAMBDA q : IncomeTax(c, q.x)),
  Check("unit.tax.vector", "taxVector", LAMBDA q : IncomeTax(c, q.x)),
  Check("unit.ssc.scalar", "sscScalar", LAMBDA q : Contribution(c, q.x)),
  Check("unit.ssc.vector", "sscVector", LAMBDA q : Contribution(c, q.x)),
  Check("unit.net.scalar", "netScalar", LAMBDA q : NetIncome(WithSplitting(q.split), q.f, q.m)),
  Check("unit.net.vector", "netVector", LAMBDA q : NetIncome(WithSplitting(q.split), q.f, q.m)) >>

Exps == <<
  Check("unit.inc", "increment", LAMBDA q : Increment(c, q.e, q.a, q.b)),
  Check("unit.maxyears", "maxYears", LAMBDA q : q.i \oplus RMax(q.t, q.t \otimes q.inc)),
  Check("unit.years", "years", LAMBDA q : Years([c EXCEPT !.expInitMax = q.i], q.x, q.t, q.inc)),
  Check("unit.stock", "stock", LAMBDA q : Stock([c EXCEPT !.expInitMax = q.i], q.x, q.t, q.inc)),
  Check("unit.next", "next", LAMBDA q : NextStock([c EXCEPT !.expInitMax = q.i], q.x, q.t, q.inc, q.ch)),
  Check("unit.logwage", "logWage", LAMBDA q :
     LogWage([c EXCEPT !.scale = ToReal(1)], q.e, Years([c EXCEPT !.expInitMax = q.i], q.x, q.t, q.inc))) >>

Homes == <<
  Check("unit.home.flat", "homeFlat", LAMBDA q : NonEmploymentResources(WithSplitting(q.split), q.l, q.a, q.m, q.lw, q.ml)),
  Check("unit.home.grid", "homeGrid", LAMBDA q : NonEmploymentResources(WithSplitting(q.split), q.l, q.a, q.m, q.lw, q.ml)) >>

\* one answer of the continuation function: value grids of the four successor situations,
\* <<no birth & single, no birth & partner, birth & single, birth & partner>>
ContWant(q) ==
  LET z == NextStock([c EXCEPT !.expInitMax = q.i], q.grid[q.g], q.t, q.inc, q.ch)
      v(j) == Interp(q.grid, q.v[j], z)
      go(a, b) == (q.pm[1] \otimes a) \oplus (q.pm[2] \otimes b)
  IN (RSub(1, q.pb) \otimes go(v(1), v(2))) \oplus (q.pb \otimes go(v(3), v(4)))

Conts == <<
  Check("unit.interp", "interp", LAMBDA q : Interp(q.grid, q.v, q.x)),
  Check("unit.cont", "cont", ContWant) >>

\* An integration rule for a standard normal shock.
RECURSIVE DoubleFactorial(_)
DoubleFactorial(k) == IF k <= 1 THEN ToReal(1) ELSE k \otimes DoubleFactorial(k - 2)
Moment(k) == IF k % 2 = 1 THEN ToReal(0) ELSE DoubleFactorial(k - 1)
RECURSIVE Power(_, _)
Power(x, k) == IF k = 0 THEN ToReal(1) ELSE x \otimes Power(x, k - 1)
RuleMoment(q, k) == RSum([i \in 1..Len(q.x) |-> q.w[i] \otimes Power(q.x[i], k)])
RuleScale(q, k) == RSum([i \in 1..Len(q.x) |-> RAbs(q.w[i]) \otimes Power(RAbs(q.x[i]), k)])

Rules == <<
  \* quadrature with n nodes integrates polynomials up to degree 2n - 1 exactly
  Holds("unit.quadrature", "quadrature", LAMBDA q :
     /\ Len(q.x) = q.n /\ Len(q.w) = q.n
     /\ \A k \in 0..(IF q.n > 25 THEN 50 ELSE 2 * q.n - 1) : RLe(RAbs(RuleMoment(q, k) \ominus Moment(k)),
                                     Dec("1e-9") \otimes RMax(1, RuleScale(q, k)))),
  Holds("unit.montecarlo", "montecarlo", LAMBDA q :
     /\ Len(q.x) = q.n /\ Len(q.w) = q.n
     /\ \A i \in 1..q.n : Same(q.w[i], 1 \oslash q.n) /\ Same(q.x[i], q.z[i])) >>

\* What the preparation of the inputs makes of them: one record of named numbers.
Named == [
  egMin |-> c.egMin, egMax |-> c.egMax, erzSingle |-> c.erzSingle, erzMarried |-> c.erzMarried, erz |-> c.erz,
  sscRate |-> c.sscRate, sscCap |-> c.sscCap,
  care13p |-> c.care[1][1], care13f |-> c.care[1][2], care36p |-> c.care[2][1], care36f |-> c.care[2][2],
  types |-> ToReal(c.T), educs |-> ToReal(c.E), scale |-> c.scale, delta |-> c.delta, mu |-> c.mu, sigma |-> c.sigma ]
ListOf(name) == CASE name = "typeShares" -> c.typeShares [] name = "thetaP" -> c.thP [] name = "thetaF" -> c.thF
                  [] name = "grid" -> c.grid [] name = "thresholds" -> c.thr
                  [] name = "gamma0" -> c.g0 [] name = "gamma1" -> c.g1 [] name = "gammaP" -> c.gp

Inputs == <<
  Check("unit.named", "named", LAMBDA q : Named[q.k]),
  Holds("unit.lists", "lists", LAMBDA q : LET w == ListOf(q.k) IN
     Len(q.y) = Len(w) /\ \A i \in 1..Len(w) : Same(q.y[i], w[i])),
  \* a malformed input is refused, a well-formed one accepted
  Holds("unit.refused", "refused", LAMBDA q : q.valid <=> q.accepted),
  \* reading the inputs leaves them as they were
  Holds("unit.untouched", "untouched", LAMBDA q : q.same) >>

Group(i) ==
  CASE i = 1 -> Taxes [] i = 2 -> Exps [] i = 3 -> Homes [] i = 4 -> Conts [] i = 5 -> Rules [] i = 6 -> Inputs
    [] i = 7 -> << Judgment("done", {1}, LAMBDA x : TRUE, LAMBDA x : 0) >>

Init == tid \in 1..N /\ pos = 1
Next == pos <= 7 /\ Emit(pos, Group(pos)) /\ pos' = pos + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
