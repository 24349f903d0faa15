------------------------------- MODULE Bellman ------------------------------
(* One period of the backward induction.                                            *)
(* Vnext[k][g] is next period's expected maximal value at canonical state k and      *)
(* grid point g; in the last period it is not read.                                  *)
EXTENDS Real64, StateSpace, Benefits, Preferences, Experience, TLC

SolveFloor == Dec("1e-14")   \* smallest disposable income of a working household, solution
SimFloor   == Dec("2.220446049250313e-16")  \* and in simulated data

\* Piecewise-linear interpolation of values v on the increasing grid x at point q, with the
\* end segments extended.
Segment(x, q) ==
  LET n == Len(x)
      S == {i \in 1..(n - 1) : RLe(x[i], q)}
  IN IF S = {} THEN 1 ELSE CHOOSE i \in S : \A j \in S : j <= i

InterpAt(x, v, i, q) ==
  v[i] \oplus ((v[i + 1] \ominus v[i]) \otimes ((q \ominus x[i]) \oslash (x[i + 1] \ominus x[i])))

\* a grid of a single point carries a constant
Interp(x, v, q) == IF Len(x) = 1 THEN v[1] ELSE InterpAt(x, v, Segment(x, q), q)

\* Expected continuation values of choice ch from state s (period t), one per grid point.
\* qs[g] is where grid point g leads to on next period's grid, sg[g] its segment.
\* Value first, then the average over births (of probability pb) and partner transitions.
ContinuationWith(c, t, s, ch, Vnext, pb) ==
  LET inc == Increment(c, s.educ, s.age, c.biased)
      pm  == IF s.partner = 0 THEN c.arrive[t + 1][s.educ + 1]
             ELSE RSub(1, c.part[t + 1][s.educ + 1])
      v00 == Vnext[SuccKey(c, s, ch, FALSE, 0)]
      v01 == Vnext[SuccKey(c, s, ch, FALSE, 1)]
      v10 == Vnext[SuccKey(c, s, ch, TRUE, 0)]
      v11 == Vnext[SuccKey(c, s, ch, TRUE, 1)]
  IN [g \in 1..Len(c.grid) |->
        LET q == NextStock(c, c.grid[g], t, inc, ch)
            i == Segment(c.grid, q)
            At2(v) == IF Len(c.grid) = 1 THEN v[1] ELSE InterpAt(c.grid, v, i, q)
        IN  (RSub(1, pb) \otimes ((RSub(1, pm) \otimes At2(v00)) \oplus (pm \otimes At2(v01))))
            \oplus (pb \otimes ((RSub(1, pm) \otimes At2(v10)) \oplus (pm \otimes At2(v11))))]

\* Agents expect a birth with the probability of the current period.
Continuation(c, t, s, ch, Vnext) == ContinuationWith(c, t, s, ch, Vnext, c.birth[t + 1][s.educ + 1])

\* consumption utility of working j for a household, with gross earnings at shock z
WorkUtility(c, s, logwage, male, equiv, j, z) ==
  LET gross == HoursOf[j] \otimes RExp(logwage \oplus z)
      res == RMax(SolveFloor, WorkResources(c, s.age, s.partner, gross, male, j))
  IN  RPow(res \oslash equiv, c.mu) \oslash c.mu

\* The household part of a period's payoffs: for [educ, lag, age, partner] and grid point g,
\* the consumption utility of not working, and of part-time and full-time at every node.
\* It does not depend on the type; the lagged choice matters only when not working.
Payoffs(c, t, nodes) ==
  TLCEval([e \in 0..(c.E - 1) |-> TLCEval([a \in Ages(c) |-> TLCEval([m \in 0..1 |->
    LET s     == [educ |-> e, age |-> a, partner |-> m]
        inc   == Increment(c, e, a, c.biased)
        male  == MaleWage(c, t, e, m)
        eq    == Equivalence(a, m)
        lw    == TLCEval([g \in 1..Len(c.grid) |-> LogWage(c, e, Years(c, c.grid[g], t, inc))])
    IN [home |-> TLCEval([l \in 0..2 |-> TLCEval([g \in 1..Len(c.grid) |->
                   RPow(NonEmploymentResources(c, l, a, m, lw[g], male) \oslash eq, c.mu) \oslash c.mu])]),
        work |-> TLCEval([g \in 1..Len(c.grid) |-> TLCEval([d \in 1..Len(nodes) |->
                   << WorkUtility(c, s, lw[g], male, eq, 1, nodes[d] \otimes c.sigma),
                      WorkUtility(c, s, lw[g], male, eq, 2, nodes[d] \otimes c.sigma) >>])])]])])])

\* One period: for every canonical state the continuation values and the expected maximum.
SolvePeriod(c, t, nodes, weights, Vnext) ==
  LET pay == Payoffs(c, t, nodes)
      n   == Len(c.grid)
      last == t = c.P - 1
      zero == [g \in 1..n |-> ToReal(0)]
  IN TLCEval([k \in 1..Block(c) |->
       LET s  == At(c, t, k)
           c0 == TLCEval(IF last THEN zero ELSE Continuation(c, t, s, 0, Vnext))
           c1 == TLCEval(IF last THEN zero ELSE Continuation(c, t, s, 1, Vnext))
           c2 == TLCEval(IF last THEN zero ELSE Continuation(c, t, s, 2, Vnext))
           w1 == WorkFactor(c, s.educ, s.type, s.age, 1)
           w2 == WorkFactor(c, s.educ, s.type, s.age, 2)
           p  == pay[s.educ][s.age][s.partner]
       IN [cont |-> <<c0, c1, c2>>,
           emax |-> TLCEval([g \in 1..n |->
             LET v0 == p.home[s.lag][g] \oplus (c.delta \otimes c0[g])
             IN RSum([d \in 1..Len(nodes) |->
                  weights[d] \otimes
                  RMax(v0, RMax((p.work[g][d][1] \otimes w1) \oplus (c.delta \otimes c1[g]),
                                (p.work[g][d][2] \otimes w2) \oplus (c.delta \otimes c2[g])))])])]])
=============================================================================
