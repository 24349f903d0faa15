------------------------------- MODULE MCAgree ------------------------------
(* What is expected against what comes: women choose by the values V of the solution (its   *)
(* beliefs about births and about experience), and R is what such a life is worth on        *)
(* average under the laws that govern simulated lives.  In a world where the two laws are    *)
(* the same, R is V; and the model knows where they are not: births (the recorded finding)  *)
(* and biased beliefs.                                                                      *)
EXTENDS Bellman, Lifecycle, MCBase

CONSTANTS Worlds, Regimes

Nodes == <<Dec("-1.7320508075688772"), ToReal(0), Dec("1.7320508075688772")>>
Weights == <<RDiv(1, 6), RDiv(2, 3), RDiv(1, 6)>>

Steady == [Small EXCEPT !.lastBear = 9, !.birth = [t \in 1..3 |-> [e \in 1..3 |-> RDiv(e, 7)]]]
Model(w) ==
  CASE w = "steady" -> Steady
    [] w = "timed" -> Small                                     \* births more likely every period
    [] w = "bearing" -> [Steady EXCEPT !.lastBear = 1]          \* and impossible later (so is the expectation)
    [] w = "biased" -> [Steady EXCEPT !.biased = TRUE]
    [] w = "unit" -> [Steady EXCEPT !.biased = TRUE, !.gp = <<ToReal(1), ToReal(1), ToReal(1)>>, !.gpm = ToReal(0)]
    [] w = "childless" -> [Small EXCEPT !.birth = [t \in 1..3 |-> [e \in 1..3 |-> ToReal(0)]]]

\* what the solution expects: as many births as the table says, none after the last child-bearing period
Expecting(m) == [m EXCEPT !.birth = [t \in 1..m.P |-> [e \in 1..3 |-> IF t - 1 > m.lastBear THEN ToReal(0) ELSE m.birth[t][e]]]]

VARIABLES w, c, t, V, R
vars == <<w, c, t, V, R>>
View == <<w, c.elterngeld, t>>

Init == /\ w \in Worlds /\ \E reg \in Regimes : c = TLCEval(Expecting([Model(w) EXCEPT !.elterngeld = reg]))
        /\ t = c.P /\ V = <<>> /\ R = <<>>

n == Len(c.grid)
Best(a, b, d) == IF RLe(b, a) /\ RLe(d, a) THEN 0 ELSE IF RLe(d, b) THEN 1 ELSE 2

Next ==
  LET p == t - 1
      last == t = c.P
      nx == IF last THEN <<>> ELSE TLCEval([k \in 1..Block(c) |-> V[k].emax])
      pay == TLCEval(Payoffs(c, p, Nodes))
      true == TLCEval([c EXCEPT !.biased = FALSE])
      zero == [g \in 1..n |-> ToReal(0)]
  IN /\ t > 0 /\ t' = p
     /\ V' = SolvePeriod(c, p, Nodes, Weights, nx)
     /\ R' = TLCEval([k \in 1..Block(c) |->
          LET s == At(c, p, k)
              \* births as they come, experience as it accumulates
              go(ch) == IF last THEN zero ELSE ContinuationWith(true, p, s, ch, R, BirthProb(c, p, s.educ))
              cn == TLCEval(<<go(0), go(1), go(2)>>)
              f1 == WorkFactor(c, s.educ, s.type, s.age, 1)
              f2 == WorkFactor(c, s.educ, s.type, s.age, 2)
              y == pay[s.educ][s.age][s.partner]
          IN [g \in 1..n |-> RSum([d \in 1..3 |->
                LET flow == <<y.home[s.lag][g], y.work[g][d][1] \otimes f1, y.work[g][d][2] \otimes f2>>
                    think(i) == flow[i] \oplus (c.delta \otimes V'[k].cont[i][g])
                    i == 1 + Best(think(1), think(2), think(3))
                IN Weights[d] \otimes (flow[i] \oplus (c.delta \otimes cn[i][g]))])]])
     /\ UNCHANGED <<w, c>>
Spec == Init /\ [][Next]_vars

Solved == V # <<>>
K == 1..Block(c)
G == 1..n
Agree == \A k \in K, g \in G : Close(R[k][g], V[k].emax[g], Dec("1e-9"))
\* one world: what is expected is what comes
Agreed == (Solved /\ w \in {"steady", "unit", "childless"}) => Agree
\* nothing comes after the last period, so that there is no difference there
Ending == (Solved /\ t = c.P - 1) => Agree
\* where the laws differ, so do the values: expectations are not fulfilled, and only for those whom it concerns
Wrong == (Solved /\ t < c.P - 1 /\ w \in {"timed", "biased"}) => ~Agree
\* the biased are disappointed: they expect more experience than they get
Disappointed == (Solved /\ w = "biased") => \A k \in K, g \in G : RLe(R[k][g], V[k].emax[g] \oplus Dec("1e-12"))
\* a woman who cannot have a child in the next two periods expects the right thing even so
Bearing == (Solved /\ w = "bearing" /\ t >= 2) => Agree
=============================================================================
