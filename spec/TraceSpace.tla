----------------------------- MODULE TraceSpace -----------------------------
(* Validates the implementation's state space, its characteristics, its links between *)
(* periods and the probability tables against the specification, for a list of inputs. *)
EXTENDS Bellman, Lifecycle, SpecReader, Judge, IOUtils

Data == LoadJson(IOEnv.TRACE)
N    == Len(Data)
C    == TLCEval([i \in 1..N |-> Model(Data[i].raw)])

VARIABLES tid, pos
vars == <<tid, pos>>

c == C[tid]
D == Data[tid]
Emit(step, js) == AppendJson(IOEnv.OUT, [id |-> D.id, phase |-> "space", step |-> step, judgments |-> js])

Init == tid \in 1..N /\ pos = 0

\* D.states: every row, as <<period, educ, lag, type, age, partner>>
\* D.rows[pos+1][k]: where the implementation's index says canonical state k of period pos is
AsState(row) == [period |-> row[1], educ |-> row[2], lag |-> row[3], type |-> row[4], age |-> row[5], partner |-> row[6]]
IsRow(i) == i \in 0..(Len(D.states) - 1)
RowState(i) == AsState(D.states[i + 1])

JudgePeriod ==
  LET K == 1..Block(c)
      row(k) == D.rows[pos + 1][k]
      Addressed(k) == IsRow(row(k)) /\ RowState(row(k)) = At(c, pos, k)
      good == TLCEval({k \in K : Addressed(k)})
      Bad(k) == [state |-> At(c, pos, k), row |-> row(k)]
      cov(k) == D.cov[row(k) + 1]
      BCB == good \X (0..2) \X {FALSE, TRUE} \X (0..1)
      Target(x) == D.succ[row(x[1]) + 1][x[2] + 1][IF x[3] THEN 2 ELSE 1][x[4] + 1]
      Show(x) == [state |-> At(c, pos, x[1]), choice |-> x[2], birth |-> x[3], partner |-> x[4], leads |-> Target(x),
                  to |-> IF IsRow(Target(x)) THEN <<RowState(Target(x))>> ELSE <<>>]
      ShowCov(k) == [state |-> At(c, pos, k), got |-> cov(k)]
  IN << Judgment("space.index", K, Addressed, Bad),
        Judgment("space.succ", IF pos = c.P - 1 THEN {} ELSE BCB,
          LAMBDA x : /\ IsRow(Target(x))
                     /\ RowState(Target(x)) = Succ(c, At(c, pos, x[1]), x[2], x[3], x[4]), Show),
        Judgment("space.succ.last", IF pos = c.P - 1 THEN BCB ELSE {}, LAMBDA x : ~IsRow(Target(x)), Show),
        Judgment("space.ageing", good, LAMBDA k : D.ageing[row(k) + 1] = NextAge(c, At(c, pos, k).age, FALSE),
          LAMBDA k : [state |-> At(c, pos, k), got |-> D.ageing[row(k) + 1]]),
        Judgment("space.bin", good, LAMBDA k : REq(cov(k)[1], ChildBin(At(c, pos, k).age)), ShowCov),
        Judgment("space.male", good, LAMBDA k : LET s == At(c, pos, k) IN Same(cov(k)[2], MaleWage(c, pos, s.educ, s.partner)), ShowCov),
        Judgment("space.equiv", good, LAMBDA k : LET s == At(c, pos, k) IN Same(cov(k)[3], Equivalence(s.age, s.partner)), ShowCov),
        Judgment("space.benefit", good, LAMBDA k : Same(cov(k)[4], ChildBenefit(c, At(c, pos, k).age)), ShowCov) >>

\* Total years at entry, part-time and full-time together, each counted once.
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n < 0 THEN 0 ELSE SumTo(f, n - 1) \oplus f[n]
YearShares(m, e) ==
  LET X == 0..m.expInitMax
      Share(f, n) == IF n \in X THEN f[e][n + 1] ELSE 0
  IN [i \in 1..(2 * m.expInitMax + 1) |->
        SumTo([f \in X |-> Share(m.ftShares, f) \otimes Share(m.ptShares, i - 1 - f)], m.expInitMax)]

JudgeTables ==
  LET T == 1..c.P
      E == 1..c.E
      d == D.tables
      all == TLCEval({AsState(D.states[i]) : i \in DOMAIN D.states})
      Share(name, got, want) ==
        Judgment(name, {1}, LAMBDA x : /\ Len(got) = Len(want)
                                       /\ \A i \in 1..Len(want) : Same(got[i], want[i]),
                 LAMBDA x : [got |-> got, want |-> want])
  IN << Judgment("space.states", {1}, LAMBDA x : all = States(c), LAMBDA x : [missing |-> States(c) \ all, extra |-> all \ States(c)]),
        Judgment("space.count", {1}, LAMBDA x : Len(D.states) = c.P * Block(c), LAMBDA x : [got |-> Len(D.states), want |-> c.P * Block(c)]),
        Judgment("table.birth", T \X E, LAMBDA x : Same(d.birth[x[1]][x[2]], c.birth[x[1]][x[2]]),
                 LAMBDA x : [got |-> d.birth[x[1]][x[2]], want |-> c.birth[x[1]][x[2]]]),
        Judgment("table.partner", T \X E \X (1..2) \X (1..2),
                 LAMBDA x : LET go == IF x[3] = 1 THEN c.arrive[x[1]][x[2]] ELSE c.part[x[1]][x[2]]
                            IN Same(d.partner[x[1]][x[2]][x[3]][x[4]], IF x[3] = x[4] THEN RSub(1, go) ELSE go),
                 LAMBDA x : [got |-> d.partner[x[1]][x[2]][x[3]][x[4]]]),
        Share("table.educ", d.educ, c.educShares),
        Share("table.single", d.present, c.partnerShares) >>
     \o [e \in E |-> Share("table.child", d.child[e], c.childShares[e])]
     \o [e \in E |-> Share("table.pt", d.pt[e], c.ptShares[e])]
     \o [e \in E |-> Share("table.ft", d.ft[e], c.ftShares[e])]
     \o [e \in DOMAIN d.years |-> Share("table.years", d.years[e], YearShares(c, e))]
     \o << Judgment("done", {1}, LAMBDA x : TRUE, LAMBDA x : 0) >>

Next ==
  /\ pos <= c.P
  /\ Emit(pos, IF pos < c.P THEN JudgePeriod ELSE JudgeTables)
  /\ pos' = pos + 1
  /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars
=============================================================================
