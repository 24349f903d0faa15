---------------------------- MODULE Irrelevance -----------------------------
(* What must not matter to whom.  Each relation compares two models: the fields in     *)
(* which they may differ, the premise under which the difference cannot matter, the     *)
(* states whose solution must then be the same, and how a state of the first model      *)
(* corresponds to one of the second (Twin).                                             *)
EXTENDS StateSpace, Real64, TLC

Differ(rel) ==
  CASE rel = "splitting"   -> {"splitting"}
    [] rel = "partner-pay" -> {"cf"}
    [] rel = "regime"      -> {"elterngeld", "erz", "erzSingle", "erzMarried", "egReplace", "egMin", "egMax"}
    [] rel = "family"      -> {"childBenefits", "care", "regelChild", "addChildSingle", "housingAdd", "alg1Child",
                               "elterngeld", "erz", "erzSingle", "erzMarried", "egReplace", "egMin", "egMax",
                               "yesF", "yesP", "kidF", "kidP", "gpm"}
    [] rel = "minimum"     -> {"regelSingle", "regelChild", "addChildSingle", "housingSingle", "housingAdd"}
    [] rel = "past"        -> {"birth", "arrive", "part"}
    [] rel = "education"   -> {"g0", "g1", "gp", "noF", "noP", "yesF", "yesP", "birth", "arrive", "part",
                               "educShares", "partnerShares", "childShares", "ptShares", "ftShares", "educYears"}
    [] rel = "types"       -> {"thP", "thF", "typeShares"}
    [] rel = "start"       -> {"educShares", "partnerShares", "childShares", "ptShares", "ftShares", "educYears",
                               "nAgents", "typeShares", "ageInitMax"}
    [] rel = "unscaled"    -> {"g0", "scale"}
    [] rel = "believed"    -> {"gp", "gpm"}
    [] rel \in {"unbiased", "biasedly"} -> {"biased"}
    [] rel = "absorbed"    -> {"noF", "noP", "yesF", "yesP", "thP", "thF"}
    [] OTHER               -> {}             \* "same": reordered tables, other seeds, longer files

NoneArrive(a) == \A t \in 1..a.P, e \in 1..a.E : RLe(a.arrive[t][e], 0)
NonePart(a)   == \A t \in 1..a.P, e \in 1..a.E : RLe(a.part[t][e], 0)
NoBirths(a)   == \A t \in 1..a.P, e \in 1..a.E : RLe(a.birth[t][e], 0)

\* types i of a and Sigma(a, i) of b, the next one round
Sigma(a, i) == (i + 1) % a.T

Premise(rel, a, b) ==
  /\ DOMAIN a = DOMAIN b
  /\ \A f \in DOMAIN a \ Differ(rel) : a[f] = b[f]
  /\ CASE rel \in {"splitting", "partner-pay"} -> NoneArrive(a)
       [] rel \in {"regime", "family"} -> NoBirths(a)
       [] rel = "minimum" -> NonePart(a)
       [] rel = "past" -> \A f \in Differ(rel), t \in 1..a.P : t > a.P \div 2 => a[f][t] = b[f][t]
       [] rel = "education" ->
            /\ \A f \in {"g0", "g1", "gp", "noF", "noP", "yesF", "yesP"} : a[f][1] = b[f][1]
            /\ \A f \in {"birth", "arrive", "part"}, t \in 1..a.P : a[f][t][1] = b[f][t][1]
       [] rel = "types" -> \A i \in 0..(a.T - 1) : /\ b.thP[Sigma(a, i) + 1] = a.thP[i + 1]
                                                  /\ b.thF[Sigma(a, i) + 1] = a.thF[i + 1]
       [] rel = "unscaled" -> \A e \in 1..3 : Close(a.g0[e] \oplus RLn(a.scale), b.g0[e] \oplus RLn(b.scale), Dec("1e-12"))
       [] rel = "believed" -> a.biased
       [] rel = "unbiased" -> (\A e \in 1..3 : REq(a.gp[e], 1)) /\ REq(a.gpm, 0)
       [] rel = "absorbed" -> \A e \in 1..3, i \in 2..a.T :
            /\ Close(a.noF[e] \oplus a.thF[i], b.noF[e] \oplus b.thF[i], Dec("1e-12"))
            /\ Close(a.yesF[e] \oplus a.thF[i], b.yesF[e] \oplus b.thF[i], Dec("1e-12"))
            /\ Close((a.noF[e] \oplus a.noP[e]) \oplus a.thP[i], (b.noF[e] \oplus b.noP[e]) \oplus b.thP[i], Dec("1e-12"))
            /\ Close((a.yesF[e] \oplus a.yesP[e]) \oplus a.thP[i], (b.yesF[e] \oplus b.yesP[e]) \oplus b.thP[i], Dec("1e-12"))
       [] OTHER -> TRUE

Concerned(rel, a, s) ==
  CASE rel \in {"splitting", "partner-pay"} -> s.partner = 0
    [] rel = "regime" -> s.age \notin {0, 1}
    [] rel = "family" -> s.age = NoChild
    [] rel = "minimum" -> s.partner = 1
    [] rel = "past" -> s.period + 1 > a.P \div 2
    [] rel = "education" -> s.educ = 0
    [] rel = "absorbed" -> s.type > 0
    [] OTHER -> TRUE

Twin(rel, a, s) == IF rel = "types" THEN [s EXCEPT !.type = Sigma(a, s.type)] ELSE s

\* Are whole histories the same, too?  (Only where initial conditions and shocks are.)
Histories(rel) == rel \in {"splitting", "partner-pay", "regime", "family", "minimum", "unscaled", "unbiased", "same", "absorbed"}
=============================================================================
