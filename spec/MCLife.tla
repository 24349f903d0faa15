------------------------------- MODULE MCLife -------------------------------
(* The discrete life cycle as a transition system: entry, choices, births, partners,      *)
(* ageing.  It is what the trace specification accepts: AgeStep, PartnerStep, ClockStep,   *)
(* LagStep and CountStep together admit the successors generated here and no others.        *)
EXTENDS Lifecycle, MCBase, TLC

CONSTANTS Periods, AgeMax, LastBear

c == [Small EXCEPT !.P = Periods, !.ageMax = AgeMax, !.lastBear = LastBear,
        !.birth = [t \in 1..Periods |-> [e \in 1..3 |-> IF t = 2 THEN ToReal(1) ELSE IF t - 1 > LastBear THEN ToReal(0) ELSE Dec("0.4")]],
        !.arrive = [t \in 1..Periods |-> [e \in 1..2 |-> IF e = 2 THEN ToReal(0) ELSE Dec("0.5")]],
        !.part = [t \in 1..Periods |-> [e \in 1..2 |-> IF t = 1 THEN ToReal(1) ELSE Dec("0.5")]]]

VARIABLES row, hist
vars == <<row, hist>>
View == row

Start(e, a, m, ept, eft, ty) ==
  [p |-> c.educYears[e + 1], e |-> e, l |-> StartLag(eft \oplus (ept \otimes Dec("0.5"))), ty |-> ty, a |-> a, m |-> m,
   ept |-> ept, eft |-> eft, ch |-> 0]

Init ==
  /\ \E e \in 0..1, a \in -1..c.ageInitMax, m \in 0..1, ept \in 0..c.expInitMax, eft \in 0..c.expInitMax, ty \in 0..1, ch \in 0..2 :
       row = [Start(e, a, m, ept, eft, ty) EXCEPT !.ch = ch]
  /\ row.p < c.P
  /\ hist = [births |-> 0, start |-> row]

CanBirth(r) == RLt(0, BirthProb(c, r.p, r.e))
MustBirth(r) == ~RLt(BirthProb(c, r.p, r.e), 1)
Moves(r) == IF r.m = 0 THEN c.arrive[r.p + 1][r.e + 1] ELSE c.part[r.p + 1][r.e + 1]

After(r) == {[r EXCEPT !.p = r.p + 1, !.l = r.ch, !.a = NextAge(c, r.a, b), !.m = m, !.ch = ch,
                       !.ept = r.ept + (IF r.ch = 1 THEN 1 ELSE 0), !.eft = r.eft + (IF r.ch = 2 THEN 1 ELSE 0)] :
               b \in {x \in BOOLEAN : (x => CanBirth(r)) /\ (~x => ~MustBirth(r))},
               m \in {x \in 0..1 : (x # r.m => RLt(0, Moves(r))) /\ (x = r.m => RLt(Moves(r), 1))},
               ch \in 0..2}

Step ==
  /\ row.p < c.P - 1
  /\ \E s \in After(row) : row' = s /\ hist' = [hist EXCEPT !.births = @ + (IF s.a = 0 THEN 1 ELSE 0)]
Spec == Init /\ [][Step]_vars

\* the trace specification's step
Accepts(r, s) == ClockStep(r, s) /\ LagStep(r, s) /\ CountStep(r, s) /\ AgeStep(c, r, s) /\ PartnerStep(c, r, s)
Anything(r) == {[r EXCEPT !.p = p, !.l = l, !.a = a, !.m = m, !.ch = ch, !.ept = ept, !.eft = eft, !.e = e, !.ty = ty] :
                 p \in r.p..(r.p + 2), l \in 0..2, a \in -1..(c.ageMax + 1), m \in 0..1, ch \in 0..2,
                 ept \in r.ept..(r.ept + 1), eft \in r.eft..(r.eft + 1), e \in 0..1, ty \in {r.ty}}

Legal == LegalRow(c, row)
Exact == row.p < c.P - 1 => {s \in Anything(row) : Accepts(row, s)} = After(row)
Lives ==
  /\ (row.ept - hist.start.ept) + (row.eft - hist.start.eft) <= row.p - hist.start.p
  /\ row.p - hist.start.p < Alive(c, hist.start.p)
  /\ (row.a >= 0 /\ hist.births = 0) => row.a = hist.start.a + (row.p - hist.start.p)
  /\ row.e = hist.start.e /\ row.ty = hist.start.ty
  /\ (row.p > 1 /\ row.p > hist.start.p + 1 /\ row.p > c.lastBear + 1) => row.a # 0
StartLegal == row = hist.start => LegalStart(c, row)
=============================================================================
