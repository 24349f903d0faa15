------------------------------ MODULE MCBellman -----------------------------
(* Dynamic programming on a small model.  Next to the optimal values V, the values W of an *)
(* arbitrary plan are carried backwards; the plan is chosen freely, period by period, from  *)
(* a family of decision rules, so that TLC explores all combinations.                       *)
(* And the relations of Irrelevance are theorems of the specification: two models that a    *)
(* relation connects have the same solution where it says so.                                *)
EXTENDS Bellman, MCBase, Irrelevance

CONSTANTS Rels, Regimes, Rules

Nodes == <<Dec("-1.7320508075688772"), ToReal(0), Dec("1.7320508075688772")>>
Weights == <<RDiv(1, 6), RDiv(2, 3), RDiv(1, 6)>>

\* what the other model of a pair looks like
Base(rel) ==
  CASE rel \in {"splitting", "partner-pay"} -> [Small EXCEPT !.arrive = [t \in 1..3 |-> [e \in 1..2 |-> ToReal(0)]]]
    [] rel \in {"regime", "family"} -> [Small EXCEPT !.birth = [t \in 1..3 |-> [e \in 1..3 |-> ToReal(0)]]]
    [] rel = "minimum" -> [Small EXCEPT !.part = [t \in 1..3 |-> [e \in 1..2 |-> ToReal(0)]]]
    [] rel = "believed" -> [Small EXCEPT !.biased = TRUE]
    [] rel = "unbiased" -> [Small EXCEPT !.gp = <<ToReal(1), ToReal(1), ToReal(1)>>, !.gpm = ToReal(0)]
    [] rel = "types" -> [Small EXCEPT !.thP = <<ToReal(0), ToReal(0)>>, !.thF = <<ToReal(0), ToReal(0)>>]
    [] OTHER -> Small
Other(rel) ==
  LET a == Base(rel) IN
  CASE rel = "splitting" -> [a EXCEPT !.splitting = ~@]
    [] rel = "partner-pay" -> [a EXCEPT !.cf = [const |-> Dec("3.1"), age |-> Dec("0.1"), agesq |-> Dec("0.01"), educ |-> Dec("-0.1")]]
    [] rel = "regime" -> [a EXCEPT !.elterngeld = ~@, !.erz = Dec("99"), !.egMin = Dec("11")]
    [] rel = "family" -> [a EXCEPT !.elterngeld = ~@, !.childBenefits = Dec("77"), !.gpm = Dec("0.33"), !.kidF = <<Dec("1"), Dec("2"), Dec("3")>>,
                                   !.care = << <<ToReal(1), ToReal(2)>>, <<ToReal(3), ToReal(4)>> >>, !.regelChild = Dec("5")]
    [] rel = "minimum" -> [a EXCEPT !.regelSingle = Dec("150"), !.housingSingle = Dec("10"), !.addChildSingle = Dec("1")]
    [] rel = "past" -> [a EXCEPT !.birth[1] = <<Dec("0.9"), Dec("0.8"), Dec("0.7")>>, !.arrive[1] = <<Dec("0.9"), Dec("0.8")>>]
    [] rel = "education" -> [a EXCEPT !.g0[2] = Dec("3"), !.gp[2] = Dec("0.9"), !.noF[2] = Dec("1"), !.birth[2][2] = Dec("0.77"), !.arrive[1][2] = Dec("0.5")]
    [] rel = "start" -> [a EXCEPT !.educShares = <<ToReal(1), ToReal(0)>>, !.educYears = <<1, 1>>, !.typeShares = <<ToReal(1), ToReal(0)>>]
    [] rel = "unscaled" -> [a EXCEPT !.scale = ToReal(1), !.g0 = [e \in 1..3 |-> Small.g0[e] \oplus RLn(Small.scale)]]
    [] rel = "believed" -> [a EXCEPT !.gp = <<Dec("0.9"), Dec("0.1"), Dec("0.4")>>, !.gpm = Dec("0.5")]
    [] rel = "unbiased" -> [a EXCEPT !.biased = TRUE]
    [] rel = "absorbed" -> [a EXCEPT !.noF = [e \in 1..3 |-> Small.noF[e] \oplus Dec("0.25")], !.yesF = [e \in 1..3 |-> Small.yesF[e] \oplus Dec("0.25")],
                                     !.noP = [e \in 1..3 |-> Small.noP[e] \oplus Dec("-0.15")], !.yesP = [e \in 1..3 |-> Small.yesP[e] \oplus Dec("-0.15")],
                                     !.thF = <<ToReal(0), Dec("0.05")>>, !.thP = <<ToReal(0), Dec("-0.5")>>]
    \* better worlds: higher wages; lighter work
    [] rel = "richer" -> [a EXCEPT !.g0 = [e \in 1..3 |-> Small.g0[e] \oplus Dec("0.1")]]
    [] rel = "lighter" -> [a EXCEPT !.noF = [e \in 1..3 |-> Small.noF[e] \ominus Dec("0.1")], !.yesF = [e \in 1..3 |-> Small.yesF[e] \ominus Dec("0.1")]]
    [] OTHER -> a
Better == {"richer", "lighter"}

VARIABLES rel, reg, t, V, V2, W,
          plans   \* the rules chosen so far
vars == <<rel, reg, t, V, V2, W, plans>>
View == <<rel, reg, t, plans>>

Reg(m) == [m EXCEPT !.elterngeld = IF reg THEN @ ELSE ~@]
a == Reg(Base(rel))
b == Reg(Other(rel))

Init == rel \in Rels /\ reg \in Regimes /\ t = Small.P /\ V = <<>> /\ V2 = <<>> /\ W = <<>> /\ plans = <<>>

\* decision rules, by state, node and grid point; val(ch) is what a choice is worth if the plan
\* is followed from then on.  The last rule is greedy.
Rule(plan, k, g, d, val(_)) ==
  CASE plan <= 2 -> plan
    [] plan = 3 -> (k + g + d) % 3
    [] plan = 4 -> (k * g) % 3
    [] plan = 5 -> CHOOSE ch \in 0..2 : \A o \in 0..2 : RLe(val(o), val(ch))
\* (the other relations are about the solutions only)
Plans == IF rel = "same" THEN Rules ELSE {0}

Solve(plan) ==
  LET nx(S) == IF t = Small.P THEN <<>> ELSE TLCEval([k \in 1..Block(a) |-> S[k].emax])
      va == SolvePeriod(a, t - 1, Nodes, Weights, nx(V))
      pay == Payoffs(a, t - 1, Nodes)
      n == Len(a.grid)
  IN /\ t > 0 /\ t' = t - 1
     /\ V' = va
     /\ V2' = SolvePeriod(b, t - 1, Nodes, Weights, nx(V2))
     /\ W' = TLCEval([k \in 1..Block(a) |->
          LET s == At(a, t - 1, k)
              go(ch) == IF t = Small.P THEN [g \in 1..n |-> ToReal(0)] ELSE Continuation(a, t - 1, s, ch, W)
              cn == TLCEval(<<go(0), go(1), go(2)>>)
              p == pay[s.educ][s.age][s.partner]
              val(ch, g, d) == (IF ch = 0 THEN p.home[s.lag][g] ELSE p.work[g][d][ch] \otimes WorkFactor(a, s.educ, s.type, s.age, ch))
                               \oplus (a.delta \otimes cn[ch + 1][g])
          IN [g \in 1..n |-> RSum([d \in 1..3 |->
                LET v(ch) == val(ch, g, d) IN Weights[d] \otimes v(Rule(plan, k, g, d, v))])]])
     /\ plans' = Append(plans, plan)
     /\ UNCHANGED <<rel, reg>>
Next == \E plan \in Plans : Solve(plan)
Spec == Init /\ [][Next]_vars

Eps == Dec("1e-9")
K == 1..Block(a)
G == 1..Len(a.grid)
Solved == V # <<>>

\* no plan does better than the optimum
Optimal == Solved => \A k \in K, g \in G : RLe(W[k][g], V[k].emax[g] \oplus (Eps \otimes RAbs(V[k].emax[g])))
\* and being greedy all the way attains it
Attained == (Solved /\ \A n \in 1..Len(plans) : plans[n] = 5) => \A k \in K, g \in G : Close(W[k][g], V[k].emax[g], Eps)
\* while one wrong move costs something: the optimum is not attained by doing anything at all
Costly == (Solved /\ plans[1] <= 2 /\ \A n \in 1..Len(plans) : plans[n] = plans[1] /\ rel = "same") => \E k \in K, g \in G : RLt(W[k][g], V[k].emax[g] \ominus Dec("1e-6"))
Bounded == Solved => \A k \in K, g \in G : RIsFinite(V[k].emax[g])
\* nobody loses where wages are higher (and no benefit is withdrawn), or work is lighter
Improved == (Solved /\ rel \in Better) =>
  /\ \A k \in K, g \in G : RLe(V[k].emax[g], V2[k].emax[g] \oplus Dec("1e-12"))
  /\ \E k \in K, g \in G : RLt(V[k].emax[g], V2[k].emax[g])
Premised == rel \in Better \/ Premise(rel, a, b)
Irrelevant == (Solved /\ rel \notin Better) =>
  \A k \in K : LET s == At(a, t, k)
                   s2 == Twin(rel, a, s)
                   k2 == Key(b, s2.educ, s2.lag, s2.type, s2.age, s2.partner)
               IN Concerned(rel, a, s) =>
                    \A g \in G : /\ Close(V[k].emax[g], V2[k2].emax[g], Eps)
                                 /\ \A ch \in 1..3 : Close(V[k].cont[ch][g], V2[k2].cont[ch][g], Eps)
\* and not for nothing: somebody else is concerned
Relevant == (Solved /\ rel \notin {"start", "unscaled", "believed", "unbiased", "types", "same"} \cup Better) =>
  (t = 0 => \E k \in K, g \in G : ~Close(V[k].emax[g], V2[k].emax[g], Eps))
=============================================================================
