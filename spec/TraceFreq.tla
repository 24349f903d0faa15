------------------------------ MODULE TraceFreq -----------------------------
(* Validates frequencies in large simulated samples.  Every clause counts, cell by cell, *)
(* how often something happened among those to whom it could, and compares with its       *)
(* probability: a cell passes if the count is within six standard deviations (and, where  *)
(* the probability is 0 or 1, if it never or always happened).                            *)
(* D.agents: one record per agent: [e, p, m, a, ty, ept, eft]  at entry                   *)
(* D.steps:  one per agent and step: [p, e, ty, m, a, l, ch] and what came next, [m2, a2] *)
EXTENDS Lifecycle, SpecReader, Judge, IOUtils

Data == LoadJson(IOEnv.TRACE)
N    == Len(Data)
C    == TLCEval([i \in 1..N |-> Model(Data[i].raw)])

VARIABLES tid, pos
vars == <<tid, pos>>
c == C[tid]
D == Data[tid]
Emit(step, js) == AppendJson(IOEnv.OUT, [id |-> D.id, phase |-> "frequency", step |-> step, judgments |-> js])

\* |k - n p| <= 6 sqrt(n p (1-p)) + 3
Plausible(k, n, p) ==
  IF RLe(p, Dec("1e-12")) THEN k = 0
  ELSE IF RLe(Dec("0.999999999999"), p) THEN k = n
  ELSE LET d == RMax(0, RAbs(k \ominus (n \otimes p)) \ominus 3)
       IN RLe(d \otimes d, (36 \otimes n) \otimes (p \otimes RSub(1, p)))

\* One verdict per cell: of those in S, Event(x) holds for some; its probability is prob.
Cells(clause, K, Of(_), Event(_, _), Prob(_)) ==
  Judgment(clause, K,
    LAMBDA k : LET S == Of(k) IN Plausible(Cardinality({x \in S : Event(k, x)}), Cardinality(S), Prob(k)),
    LAMBDA k : LET S == Of(k) IN [cell |-> k, n |-> Cardinality(S), count |-> Cardinality({x \in S : Event(k, x)}), prob |-> Prob(k)])

A(i) == D.agents[i]
Everyone == DOMAIN D.agents
E0 == 0..(c.E - 1)

\* Any two initial conditions are independent, given education.
Traits == {"child", "partner", "pt", "ft", "type"}
Values(x) == CASE x = "child" -> -1..c.ageInitMax [] x = "partner" -> 0..1 [] x \in {"pt", "ft"} -> 0..c.expInitMax [] x = "type" -> 0..(c.T - 1)
Trait(x, i) == CASE x = "child" -> A(i).a [] x = "partner" -> A(i).m [] x = "pt" -> A(i).ept [] x = "ft" -> A(i).eft [] x = "type" -> A(i).ty
Share(x, e, v) == CASE x = "child" -> c.childShares[e + 1][v + 2]
                    [] x = "partner" -> (IF v = 1 THEN c.partnerShares[e + 1] ELSE RSub(1, c.partnerShares[e + 1]))
                    [] x = "pt" -> c.ptShares[e + 1][v + 1]
                    [] x = "ft" -> c.ftShares[e + 1][v + 1]
                    [] x = "type" -> c.typeShares[v + 1]
Pairs == { <<"child", "partner">>, <<"child", "pt">>, <<"child", "ft">>, <<"child", "type">>, <<"partner", "pt">>, <<"partner", "ft">>,
           <<"partner", "type">>, <<"pt", "ft">>, <<"pt", "type">>, <<"ft", "type">> }

Entry ==
  LET Of(e) == TLCEval({i \in Everyone : A(i).e = e})
      by == TLCEval([e \in E0 |-> Of(e)])
      exps == 0..c.expInitMax
  IN << Cells("freq.educ", E0, LAMBDA e : Everyone, LAMBDA e, i : A(i).e = e, LAMBDA e : c.educShares[e + 1]),
        Cells("freq.child", E0 \X (-1..c.ageInitMax), LAMBDA k : by[k[1]], LAMBDA k, i : A(i).a = k[2], LAMBDA k : c.childShares[k[1] + 1][k[2] + 2]),
        Cells("freq.partner", E0, LAMBDA e : by[e], LAMBDA e, i : A(i).m = 1, LAMBDA e : c.partnerShares[e + 1]),
        Cells("freq.pt", E0 \X exps, LAMBDA k : by[k[1]], LAMBDA k, i : A(i).ept = k[2], LAMBDA k : c.ptShares[k[1] + 1][k[2] + 1]),
        Cells("freq.ft", E0 \X exps, LAMBDA k : by[k[1]], LAMBDA k, i : A(i).eft = k[2], LAMBDA k : c.ftShares[k[1] + 1][k[2] + 1]),
        Cells("freq.type", 0..(c.T - 1), LAMBDA k : Everyone, LAMBDA k, i : A(i).ty = k, LAMBDA k : c.typeShares[k + 1]),
        \* independent of each other, given education
        Cells("freq.joint.child-partner", E0 \X (-1..c.ageInitMax), LAMBDA k : by[k[1]],
              LAMBDA k, i : A(i).a = k[2] /\ A(i).m = 1, LAMBDA k : c.childShares[k[1] + 1][k[2] + 2] \otimes c.partnerShares[k[1] + 1]),
        Cells("freq.joint.pt-ft", E0 \X exps, LAMBDA k : by[k[1]],
              LAMBDA k, i : A(i).ept = k[2] /\ A(i).eft = k[2], LAMBDA k : c.ptShares[k[1] + 1][k[2] + 1] \otimes c.ftShares[k[1] + 1][k[2] + 1]),
        Cells("freq.joint.child-pt", E0 \X exps, LAMBDA k : by[k[1]],
              LAMBDA k, i : A(i).ept = k[2] /\ A(i).a = -1, LAMBDA k : c.ptShares[k[1] + 1][k[2] + 1] \otimes c.childShares[k[1] + 1][1]),
        Cells("freq.joint.type-educ", E0 \X (0..(c.T - 1)), LAMBDA k : by[k[1]],
              LAMBDA k, i : A(i).ty = k[2], LAMBDA k : c.typeShares[k[2] + 1]),
        Cells("freq.joint.type-child", E0 \X (0..(c.T - 1)), LAMBDA k : by[k[1]],
              LAMBDA k, i : A(i).ty = k[2] /\ A(i).a = -1 /\ A(i).m = 1,
              LAMBDA k : (c.typeShares[k[2] + 1] \otimes c.childShares[k[1] + 1][1]) \otimes c.partnerShares[k[1] + 1]),
        Cells("freq.joint.traits", UNION {{<<e, q, v, w>> : v \in Values(q[1]), w \in Values(q[2])} : e \in E0, q \in Pairs},
              LAMBDA k : by[k[1]], LAMBDA k, i : Trait(k[2][1], i) = k[3] /\ Trait(k[2][2], i) = k[4],
              LAMBDA k : Share(k[2][1], k[1], k[3]) \otimes Share(k[2][2], k[1], k[4])) >>

S(i) == D.steps[i]
\* From these to those: births (in period p + 1) and partners.
Born(x) == S(x).a2 = 0
Steps(p) ==
  LET All == TLCEval({i \in DOMAIN D.steps : S(i).p = p})
      \* a birth cannot be told from ageing 0 -> 0; nothing ages into 0, so it can
      by == TLCEval([e \in E0 |-> TLCEval({i \in All : S(i).e = e})])
      single == TLCEval([e \in E0 |-> TLCEval({i \in by[e] : S(i).m = 0})])
      couple == TLCEval([e \in E0 |-> by[e] \ single[e]])
      working == TLCEval([e \in E0 |-> TLCEval({i \in by[e] : S(i).ch = 2})])
      mothers == TLCEval([e \in E0 |-> TLCEval({i \in by[e] : S(i).a >= 0})])
      base == TLCEval([e \in E0 |-> TLCEval({i \in by[e] : S(i).ty = 0})])
      Birth(e) == BirthProb(c, p, e)
      Comes(e) == c.arrive[p + 1][e + 1]
      Goes(e) == c.part[p + 1][e + 1]
      BornE(e, i) == Born(i)
      HasP(e, i) == S(i).m2 = 1
      NoP(e, i) == S(i).m2 = 0
  IN << Cells("freq.birth", E0, LAMBDA e : by[e], BornE, Birth),
        Cells("freq.birth.single", E0, LAMBDA e : single[e], BornE, Birth),
        Cells("freq.birth.couple", E0, LAMBDA e : couple[e], BornE, Birth),
        Cells("freq.birth.mother", E0, LAMBDA e : mothers[e], BornE, Birth),
        Cells("freq.birth.working", E0, LAMBDA e : working[e], BornE, Birth),
        Cells("freq.birth.type", E0, LAMBDA e : base[e], BornE, Birth),
        Cells("freq.arrival", E0, LAMBDA e : single[e], HasP, Comes),
        Cells("freq.arrival.mother", E0, LAMBDA e : single[e] \cap mothers[e], HasP, Comes),
        Cells("freq.arrival.working", E0, LAMBDA e : single[e] \cap working[e], HasP, Comes),
        Cells("freq.separation", E0, LAMBDA e : couple[e], NoP, Goes),
        Cells("freq.separation.mother", E0, LAMBDA e : couple[e] \cap mothers[e], NoP, Goes),
        Cells("freq.separation.working", E0, LAMBDA e : couple[e] \cap working[e], NoP, Goes),
        Cells("freq.joint.birth-arrival", E0, LAMBDA e : single[e], LAMBDA e, i : Born(i) /\ S(i).m2 = 1, LAMBDA e : Birth(e) \otimes Comes(e)),
        Cells("freq.joint.birth-separation", E0, LAMBDA e : couple[e], LAMBDA e, i : Born(i) /\ S(i).m2 = 0, LAMBDA e : Birth(e) \otimes Goes(e)) >>

\* The same events, with all periods and education levels taken together, among those with a
\* certain value of something that must not matter: k = <<which, value>>.
\* ("years": worked so far, up to four; "before": her partner status a period ago, 2 on entry)
Aspects == {"age", "lag", "choice", "type", "other", "years", "before"}
AspectValues(x) == CASE x = "age" -> -1..c.ageMax [] x \in {"lag", "choice", "before"} -> 0..2 [] x = "years" -> 0..4 [] x = "type" -> 0..(c.T - 1) [] x = "other" -> 0..1
Aspect(x, i) == CASE x = "age" -> S(i).a [] x = "lag" -> S(i).l [] x = "choice" -> S(i).ch [] x = "type" -> S(i).ty
                  [] x = "other" -> S(i).m
                  [] x = "years" -> S(i).w [] x = "before" -> S(i).b
Times == 0..(c.P - 2)
Pooled ==
  LET TE == Times \X E0
      all == TLCEval([q \in TE |-> {i \in DOMAIN D.steps : S(i).p = q[1] /\ S(i).e = q[2]}])
      K == UNION {{<<x, v>> : v \in AspectValues(x)} : x \in Aspects}
      Verdict(clause, In(_), Hit(_), Prob(_)) ==
        LET of(k) == TLCEval([q \in TE |-> {i \in all[q] : In(i) /\ Aspect(k[1], i) = k[2]}])
            Sum(k, F(_, _)) == LET w == of(k) IN RSum([j \in 1..(Cardinality(Times) * c.E) |->
                                  LET q == <<(j - 1) \div c.E, (j - 1) % c.E>> IN F(Cardinality(w[q]), Prob(q))])
            count(k) == Cardinality({i \in UNION {of(k)[q] : q \in TE} : Hit(i)})
            expected(k) == Sum(k, LAMBDA n, p : n \otimes p)
            variance(k) == Sum(k, LAMBDA n, p : n \otimes (p \otimes RSub(1, p)))
        IN Judgment(clause, K,
             LAMBDA k : LET d == RMax(0, RAbs(count(k) \ominus expected(k)) \ominus 3) IN RLe(d \otimes d, 36 \otimes variance(k)),
             LAMBDA k : [cell |-> k, count |-> count(k), expected |-> expected(k), variance |-> variance(k)])
  IN << Verdict("freq.birth.pooled", LAMBDA i : TRUE, Born, LAMBDA q : BirthProb(c, q[1], q[2])),
        Verdict("freq.arrival.pooled", LAMBDA i : S(i).m = 0, LAMBDA i : S(i).m2 = 1, LAMBDA q : c.arrive[q[1] + 1][q[2] + 1]),
        Verdict("freq.separation.pooled", LAMBDA i : S(i).m = 1, LAMBDA i : S(i).m2 = 0, LAMBDA q : c.part[q[1] + 1][q[2] + 1]) >>

\* Expectations are right on average: the mean of what the chosen alternative was expected
\* to be worth equals the mean of what came of it.  D.surprise: by period, [n, sum, sumsq, scale]
\* of (expected maximal value in the state reached) - (expected at the choice).
Surprises ==
  Judgment("freq.martingale", DOMAIN D.surprise,
    LAMBDA k : LET q == D.surprise[k]
                   mean == q.sum \oslash q.n
                   var == (q.sumsq \oslash q.n) \ominus (mean \otimes mean)
                   slack == RMax(0, RAbs(mean) \ominus (Dec("0.002") \otimes q.scale))
               IN RLe((slack \otimes slack) \otimes q.n, 36 \otimes RMax(0, var)),
    LAMBDA k : D.surprise[k])

Init == tid \in 1..N /\ pos = 0
Next ==
  /\ pos <= c.P
  /\ Emit(pos, IF pos = 0 THEN Entry
               ELSE IF pos < c.P THEN Steps(pos - 1)
               ELSE Pooled \o << Surprises, Judgment("done", {1}, LAMBDA x : TRUE, LAMBDA x : 0) >>)
  /\ pos' = pos + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
