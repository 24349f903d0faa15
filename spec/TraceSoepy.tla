----------------------------- MODULE TraceSoepy -----------------------------
(* Validates what the implementation computed for a list of inputs against the      *)
(* specification: first the solution, period by period from the last (Bellman), then *)
(* the simulated histories, agent by agent (Lifecycle and the payoffs).              *)
(* The file named by the environment variable TRACE holds the inputs and the         *)
(* implementation's answers; one line of verdicts per step is appended to OUT.       *)
EXTENDS Bellman, Lifecycle, SpecReader, Judge, IOUtils

Data == LoadJson(IOEnv.TRACE)
N    == Len(Data)
C    == TLCEval([i \in 1..N |-> Model(Data[i].raw)])

VARIABLES tid,    \* which input
          phase,  \* "solve", "simulate", "done"
          pos,    \* the period to be solved next, or the agent to be checked next
          V       \* the solution so far, by period

vars == <<tid, phase, pos, V>>
View == <<tid, phase, pos>>

c == C[tid]
D == Data[tid]

Emit(step, js) == AppendJson(IOEnv.OUT, [id |-> D.id, phase |-> phase, step |-> step, judgments |-> js])

Init ==
  /\ tid \in 1..N
  /\ phase = "solve"
  /\ pos = C[tid].P - 1
  /\ V = [t \in 1..C[tid].P |-> <<>>]

\* ---- solution ------------------------------------------------------------------
\* The solution's expectations against the probabilities that govern simulated births: they
\* agree, or (a known finding) use the birth probability of one period earlier.
SimLaw(t, k, ch, next) ==
  LET s == At(c, t, k) IN ContinuationWith(c, t, s, ch, next, BirthProb(c, t, s.educ))

JudgeAgreement(t, blk, next) ==
  LET X == IF t = c.P - 1 THEN {} ELSE (1..Block(c)) \X (0..2)
      imp(x) == D.emax[t + 1][x[1]][1][x[2] + 1]
      agrees(x) == Same(imp(x), SimLaw(t, x[1], x[2], next)[1])
      early(x) == Same(imp(x), blk[x[1]].cont[x[2] + 1][1])
      bad == TLCEval({x \in X : ~agrees(x)})
      Info(x) == [state |-> At(c, t, x[1]), choice |-> x[2], solution |-> imp(x), simulated |-> SimLaw(t, x[1], x[2], next)[1]]
  IN << Judgment("agree.law", X, LAMBDA x : x \notin bad \/ early(x), Info),
        Judgment("finding.birth-timing", bad, LAMBDA x : ~early(x), Info) >>

JudgeSolve(t, blk) ==
  LET K == 1..Block(c)
      n == Len(c.grid)
      imp == D.emax[t + 1]
      fac == D.factor[t + 1]
  IN << Judgment("solve.cont", K \X (1..n) \X (1..3),
          LAMBDA x : Same(imp[x[1]][x[2]][x[3]], blk[x[1]].cont[x[3]][x[2]]),
          LAMBDA x : [state |-> At(c, t, x[1]), got |-> imp[x[1]][x[2]][x[3]], want |-> blk[x[1]].cont[x[3]][x[2]]]),
        Judgment(IF t = c.P - 1 THEN "solve.emax.last" ELSE "solve.emax", K \X (1..n),
          LAMBDA x : Same(imp[x[1]][x[2]][4], blk[x[1]].emax[x[2]]),
          LAMBDA x : [state |-> At(c, t, x[1]), got |-> imp[x[1]][x[2]][4], want |-> blk[x[1]].emax[x[2]]]),
        Judgment("solve.factor", K \X (0..2),
          LAMBDA x : LET s == At(c, t, x[1]) IN Same(fac[x[1]][x[2] + 1], WorkFactor(c, s.educ, s.type, s.age, x[2])),
          LAMBDA x : [state |-> At(c, t, x[1]), got |-> fac[x[1]][x[2] + 1]]) >>

SolveStep ==
  /\ phase = "solve"
  /\ LET next == IF pos = c.P - 1 THEN <<>> ELSE TLCEval([k \in 1..Block(c) |-> V[pos + 2][k].emax])
         blk  == SolvePeriod(c, pos, D.nodes, D.weights, next)
     IN /\ V' = [V EXCEPT ![pos + 1] = blk]
        /\ (D.hasSolution => Emit(pos, JudgeSolve(pos, blk) \o JudgeAgreement(pos, blk, next)))
  /\ IF pos = 0 THEN phase' = "simulate" /\ pos' = 1 ELSE phase' = phase /\ pos' = pos - 1
  /\ UNCHANGED tid

\* ---- simulation ----------------------------------------------------------------
RowInc(r) == TrueIncrement(c, r.e, r.a)
RowYears(r) == Years(c, r.x, r.p, RowInc(r))
RowLogWage(r) == LogWage(c, r.e, RowYears(r))
RowWage(r) == RExp(RowLogWage(r) \oplus (r.z \otimes c.sigma))
RowMale(r) == MaleWage(c, r.p, r.e, r.m)

RowConsumption(r, ch) ==
  LET res == IF ch = 0 THEN NonEmploymentResources(c, r.l, r.a, r.m, RowLogWage(r), RowMale(r))
             ELSE WorkResources(c, r.a, r.m, HoursOf[ch] \otimes RowWage(r), RowMale(r), ch)
  IN RMax(SimFloor, res) \oslash Equivalence(r.a, r.m)

RowFlow(r, ch) == Utility(c, RowConsumption(r, ch), WorkFactor(c, r.e, r.ty, r.a, ch))

RowCont(r, ch) ==
  LET k == Key(c, r.e, r.l, r.ty, r.a, r.m)
  IN Interp(c.grid, V[r.p + 1][k].cont[ch + 1], Clip01(r.x))

\* Experience, in years, is what it was plus what the choice earned.
Conserved(r, s) == Same(RowYears(s), RowYears(r) \oplus Gain(r.ch, RowInc(r)))
LawOfMotion(r, s) == Same(s.x, NextStock(c, r.x, r.p, RowInc(r), r.ch))
\* Circumstances in which the implementation is known not to conserve years.
Overfull(r) == RLt(1 \oplus Tol, UnclippedNext(c, r.x, r.p, RowInc(r), r.ch))
Rescaled(r, s) == RLt(Tol, RAbs(MaxYears(c, s.p, RowInc(s)) \ominus MaxYears(c, s.p, RowInc(r))))
StartYears(r) == (r.ept \otimes RowInc(r)) \oplus r.eft
StartOk(r) == Same(RowYears(r), StartYears(r))
StartPeriod0(r) == r.p > 0 /\ Same(r.x, Stock(c, StartYears(r), 0, RowInc(r)))

JudgeLegalAgent(H) ==
  LET n == Len(H)
      I == 1..n
      J == 1..(n - 1)
      Info(i) == H[i]
      Ch == I \X (0..2)
      Pair(i) == <<H[i], H[i + 1]>>
      bad == {i \in J : ~Conserved(H[i], H[i + 1])}
  IN << Judgment("sim.legal", I, LAMBDA i : LegalRow(c, H[i]), Info),
        Judgment("sim.start", 1..1, LAMBDA i : LegalStart(c, H[1]) /\ n = Alive(c, c.educYears[H[1].e + 1]), Info),
        Judgment("sim.start.lag", 1..1, LAMBDA i : H[1].l = StartLag(StartYears(H[1])), Info),
        Judgment("sim.start.stock", 1..1, LAMBDA i : StartOk(H[1]) \/ StartPeriod0(H[1]), Info),
        Judgment("sim.start.years", 1..1, LAMBDA i : StartOk(H[1]) \/ StartPeriod0(H[1]), Info),
        Judgment("finding.entry-scale", 1..1, LAMBDA i : StartOk(H[1]) \/ ~StartPeriod0(H[1]), Info),
        Judgment("sim.clock", J, LAMBDA i : ClockStep(H[i], H[i + 1]), Pair),
        Judgment("sim.lag", J, LAMBDA i : LagStep(H[i], H[i + 1]), Pair),
        Judgment("sim.counts", J, LAMBDA i : CountStep(H[i], H[i + 1]), Pair),
        Judgment("sim.age", J, LAMBDA i : H[i + 1].a \in {0, NextAge(c, H[i].a, FALSE)}, Pair),
        Judgment("sim.birth", J, LAMBDA i : AgeStep(c, H[i], H[i + 1]), Pair),
        Judgment("sim.partner", J, LAMBDA i : PartnerStep(c, H[i], H[i + 1]), Pair),
        Judgment("sim.stock.range", I, LAMBDA i : RLe(0, H[i].x) /\ (i = 1 \/ RLe(H[i].x, 1)), Info),
        Judgment("sim.stock", J, LAMBDA i : LawOfMotion(H[i], H[i + 1]) \/ Conserved(H[i], H[i + 1]), Pair),
        Judgment("sim.years", J, LAMBDA i : Conserved(H[i], H[i + 1])
                     \/ (LawOfMotion(H[i], H[i + 1]) /\ (Overfull(H[i]) \/ Rescaled(H[i], H[i + 1]))), Pair),
        Judgment("finding.overfull", bad, LAMBDA i : ~Overfull(H[i]), Pair),
        Judgment("finding.rescaled", bad, LAMBDA i : Overfull(H[i]) \/ ~Rescaled(H[i], H[i + 1]), Pair),
        Judgment("sim.wage.seen", I, LAMBDA i : RIsNaN(H[i].w) <=> H[i].ch = 0, Info),
        Judgment("sim.wage", {i \in I : ~RIsNaN(H[i].w)}, LAMBDA i : Same(H[i].w, RowWage(H[i])),
                 LAMBDA i : [row |-> H[i], want |-> RowWage(H[i])]),
        Judgment("sim.male", I, LAMBDA i : Same(H[i].ml, RowMale(H[i])), LAMBDA i : [row |-> H[i], want |-> RowMale(H[i])]),
        Judgment("sim.factor", Ch, LAMBDA x : Same(H[x[1]].nc[x[2] + 1], WorkFactor(c, H[x[1]].e, H[x[1]].ty, H[x[1]].a, x[2])),
                 LAMBDA x : [row |-> H[x[1]]]),
        Judgment("sim.flow.home", I, LAMBDA i : Same(H[i].fl[1], RowFlow(H[i], 0)),
                 LAMBDA i : [row |-> H[i], want |-> RowFlow(H[i], 0)]),
        Judgment("sim.flow.work", I \X (1..2), LAMBDA x : Same(H[x[1]].fl[x[2] + 1], RowFlow(H[x[1]], x[2])),
                 LAMBDA x : [row |-> H[x[1]], want |-> RowFlow(H[x[1]], x[2])]),
        Judgment("sim.cont", Ch, LAMBDA x : Same(H[x[1]].cv[x[2] + 1], RowCont(H[x[1]], x[2])),
                 LAMBDA x : [row |-> H[x[1]], want |-> RowCont(H[x[1]], x[2])]),
        Judgment("sim.value", Ch, LAMBDA x : Same(H[x[1]].vf[x[2] + 1],
                      H[x[1]].fl[x[2] + 1] \oplus (c.delta \otimes H[x[1]].cv[x[2] + 1])),
                 LAMBDA x : [row |-> H[x[1]]]),
        Judgment("sim.choice", I, LAMBDA i : \A ch \in 0..2 :
                      RLe(H[i].vf[ch + 1], H[i].vf[H[i].ch + 1] \oplus (Tol \otimes RAbs(H[i].vf[ch + 1]))), Info) >>

\* The compact form of the output says the same of the same woman, as far as it goes.
JudgeCompact ==
  IF D.compact = <<>> THEN <<>>
  ELSE LET H == D.agents[pos]
           S == IF pos <= Len(D.compact) THEN D.compact[pos] ELSE <<>>
           I == 1..Len(H)
           Pair(i) == [row |-> H[i], compact |-> IF i \in DOMAIN S THEN S[i] ELSE <<>>]
           Fields == {"id", "p", "e", "l", "a", "ept", "eft", "ch"}
       IN << Judgment("sim.compact.life", I, LAMBDA i : /\ Len(S) = Len(H) /\ Len(D.compact) = Len(D.agents)
                                                        /\ \A f \in Fields : S[i][f] = H[i][f], Pair),
             Judgment("sim.compact.stock", I \cap DOMAIN S, LAMBDA i : Same(S[i].x, H[i].x), Pair),
             Judgment("sim.compact.wage", I \cap DOMAIN S,
                      LAMBDA i : IF RIsNaN(S[i].w) THEN RIsNaN(H[i].w) ELSE ~RIsNaN(H[i].w) /\ Same(S[i].w, H[i].w), Pair) >>

\* A row outside the model's ranges is a verdict of its own; nothing else can be said then.
JudgeAgent(H) ==
  IF \E i \in DOMAIN H : ~LegalRow(c, H[i])
  THEN << Judgment("sim.legal", DOMAIN H, LAMBDA i : LegalRow(c, H[i]), LAMBDA i : H[i]) >>
  ELSE JudgeLegalAgent(H)

SimStep ==
  /\ phase = "simulate"
  /\ pos <= Len(D.agents)
  /\ Emit(pos, JudgeAgent(D.agents[pos]) \o JudgeCompact)
  /\ pos' = pos + 1
  /\ UNCHANGED <<tid, phase, V>>

\* Every agent who enters before the last period has a history.
Finish ==
  /\ phase = "simulate"
  /\ pos > Len(D.agents)
  /\ phase' = "done"
  /\ Emit(0, << Judgment("sim.population", 1..1,
                  LAMBDA i : /\ Len(D.agents) <= c.nAgents
                             /\ ((\A e \in 1..c.E : c.educYears[e] < c.P) => Len(D.agents) = c.nAgents),
                  LAMBDA i : [agents |-> Len(D.agents)]),
                Judgment("done", 1..1, LAMBDA i : TRUE, LAMBDA i : 0) >>)
  /\ UNCHANGED <<tid, pos, V>>

Next == SolveStep \/ SimStep \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
