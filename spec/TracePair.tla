------------------------------ MODULE TracePair -----------------------------
(* Validates pairs of runs of the implementation against Irrelevance. *)
EXTENDS Irrelevance, SpecReader, Judge, IOUtils

Data == LoadJson(IOEnv.TRACE)
N    == Len(Data)
CA   == TLCEval([i \in 1..N |-> Model(Data[i].a.raw)])
CB   == TLCEval([i \in 1..N |-> Model(Data[i].b.raw)])

VARIABLES tid, pos
vars == <<tid, pos>>
a == CA[tid]
b == CB[tid]
D == Data[tid]
rel == D.rel
Emit(step, js) == AppendJson(IOEnv.OUT, [id |-> D.id, phase |-> D.rel, step |-> step, judgments |-> js])

SameRow(x, y) == Len(x) = Len(y) /\ \A i \in DOMAIN x : Same(x[i], y[i])

JudgeValues(p) ==
  LET K == TLCEval({k \in 1..Block(a) : Concerned(rel, a, At(a, p, k))})
      twin(k) == LET s == Twin(rel, a, At(a, p, k)) IN Key(b, s.educ, s.lag, s.type, s.age, s.partner)
      G == DOMAIN a.grid
  IN << Judgment("pair.value." \o rel, K \X G,
          LAMBDA x : SameRow(D.a.emax[p + 1][x[1]][x[2]], D.b.emax[p + 1][twin(x[1])][x[2]]),
          LAMBDA x : [state |-> At(a, p, x[1]), a |-> D.a.emax[p + 1][x[1]][x[2]], b |-> D.b.emax[p + 1][twin(x[1])][x[2]]]),
        Judgment("pair.factor." \o rel, K,
          LAMBDA k : SameRow(D.a.factor[p + 1][k], D.b.factor[p + 1][twin(k)]),
          LAMBDA k : [state |-> At(a, p, k), a |-> D.a.factor[p + 1][k], b |-> D.b.factor[p + 1][twin(k)]]) >>

RowState(r) == [period |-> r.p, educ |-> r.e, lag |-> r.l, type |-> r.ty, age |-> r.a, partner |-> r.m]
Whole(H) == \A i \in DOMAIN H : Concerned(rel, a, RowState(H[i]))
IntFields == {"id", "p", "e", "l", "ty", "a", "m", "ept", "eft", "ch"}
RealFields == {"x", "ml"}
VecFields == {"nc", "fl", "cv", "vf"}
SameWage(r, s) == (RIsNaN(r.w) /\ RIsNaN(s.w)) \/ Same(r.w, s.w)
SameHistory(H, K) ==
  /\ Len(H) = Len(K)
  /\ \A i \in DOMAIN H :
       /\ \A f \in IntFields : H[i][f] = K[i][f]
       /\ \A f \in RealFields : Same(H[i][f], K[i][f])
       /\ \A f \in VecFields : SameRow(H[i][f], K[i][f])
       /\ SameWage(H[i], K[i])

Entry(r) == << r.id, r.p, r.e, r.l, r.ty, r.a, r.m, r.ept, r.eft >>

JudgeHistories ==
  LET n == Len(D.a.agents)
      W == TLCEval({i \in 1..n : Whole(D.a.agents[i])})
  IN << Judgment("pair.premise", {1}, LAMBDA x : Premise(rel, a, b), LAMBDA x : [rel |-> rel]),
        Judgment("pair.agents." \o rel, IF Histories(rel) THEN {1} ELSE {}, LAMBDA x : Len(D.b.agents) = n, LAMBDA x : [a |-> n, b |-> Len(D.b.agents)]),
        Judgment("pair.history." \o rel, IF Histories(rel) /\ Len(D.b.agents) = n THEN W ELSE {},
          LAMBDA i : SameHistory(D.a.agents[i], D.b.agents[i]),
          LAMBDA i : [a |-> D.a.agents[i], b |-> D.b.agents[i]]),
        \* beliefs have no bearing on where anyone starts, nor does what is believed
        Judgment("pair.entry." \o rel, IF rel \in {"biasedly"} /\ Len(D.b.agents) = n THEN 1..n ELSE {},
          LAMBDA i : Entry(D.a.agents[i][1]) = Entry(D.b.agents[i][1]) /\ Same(D.a.agents[i][1].x, D.b.agents[i][1].x),
          LAMBDA i : [a |-> D.a.agents[i][1], b |-> D.b.agents[i][1]]),
        Judgment("done", {1}, LAMBDA x : TRUE, LAMBDA x : 0) >>

Init == tid \in 1..N /\ pos = 0
Next ==
  /\ pos <= a.P
  /\ Emit(pos, IF pos < a.P THEN (IF rel = "biasedly" THEN <<>> ELSE JudgeValues(pos)) ELSE JudgeHistories)
  /\ pos' = pos + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
