------------------------------- MODULE MCBase -------------------------------
(* A small model, written out, for checking the specification by itself: the same record *)
(* that SpecReader makes of a user's input.                                              *)
EXTENDS Real64

Third == Dec("0.3")
Small == [
  P |-> 3, E |-> 2, T |-> 2, educYears |-> <<0, 1>>, nAgents |-> 1, scale |-> Dec("1.2"),
  ageMax |-> 2, ageInitMax |-> 1, expInitMax |-> 1, lastBear |-> 2,
  cf |-> [const |-> Dec("2.6"), age |-> Dec("0.05"), agesq |-> Dec("-0.01"), educ |-> Dec("0.2")],
  grid |-> <<ToReal(0), Dec("0.35"), ToReal(1)>>,
  alg1NoChild |-> Dec("0.6"), alg1Child |-> Dec("0.67"), childBenefits |-> Dec("42.5"),
  regelSingle |-> Dec("91"), regelChild |-> Dec("55"), addChildSingle |-> Dec("33"),
  housingSingle |-> Dec("80"), housingAdd |-> Dec("16"),
  egReplace |-> Dec("0.67"), egMin |-> Dec("70"), egMax |-> Dec("420"),
  erzSingle |-> Dec("450"), erzMarried |-> Dec("600"), erz |-> Dec("70"), elterngeld |-> TRUE,
  care |-> << <<Dec("51"), Dec("110")>>, <<Dec("23"), Dec("31")>> >>,
  sscRate |-> Dec("0.215"), sscCap |-> Dec("1221"), splitting |-> TRUE,
  thr |-> << RDiv(7664, Dec("51.6")), RDiv(12739, Dec("51.6")), RDiv(52151, Dec("51.6")), RDiv(250000, Dec("51.6")) >>,
  g0 |-> <<Dec("1.4"), Dec("1.9"), Dec("2.4")>>, g1 |-> <<Dec("0.15"), Dec("0.2"), Dec("0.3")>>,
  gp |-> <<Dec("0.2"), Dec("0.5"), Dec("0.7")>>, gpm |-> Dec("0.1"),
  noF |-> <<Dec("0.4"), Dec("0.3"), Dec("0.2")>>, noP |-> <<Dec("-0.1"), Dec("-0.2"), Dec("0.1")>>,
  yesF |-> <<Dec("0.5"), Dec("0.45"), Dec("0.4")>>, yesP |-> <<Dec("-0.3"), Dec("-0.2"), Dec("-0.15")>>,
  kidF |-> <<Dec("0.3"), Dec("0.1"), Dec("0.05")>>, kidP |-> <<Dec("-0.2"), Dec("-0.1"), Dec("-0.02")>>,
  delta |-> Dec("0.95"), mu |-> Dec("-0.56"), sigma |-> Dec("0.35"),
  thP |-> <<ToReal(0), Dec("-0.4")>>, thF |-> <<ToReal(0), Dec("0.3")>>, typeShares |-> <<Dec("0.6"), Dec("0.4")>>,
  birth |-> [t \in 1..3 |-> [e \in 1..3 |-> RDiv(t + e, 9)]],
  arrive |-> [t \in 1..3 |-> [e \in 1..2 |-> RDiv(t, 2 + t + e)]],
  part |-> [t \in 1..3 |-> [e \in 1..2 |-> RDiv(e, 3 + t + e)]],
  educShares |-> <<Dec("0.5"), Dec("0.5")>>, partnerShares |-> <<Dec("0.5"), Dec("0.5")>>,
  childShares |-> [e \in 1..2 |-> <<Dec("0.4"), Dec("0.3"), Dec("0.3")>>],
  ptShares |-> [e \in 1..2 |-> <<Dec("0.5"), Dec("0.5")>>], ftShares |-> [e \in 1..2 |-> <<Dec("0.5"), Dec("0.5")>>],
  biased |-> FALSE ]
=============================================================================
