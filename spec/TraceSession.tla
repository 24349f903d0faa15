---------------------------- MODULE TraceSession ----------------------------
(* Validates recorded sessions: replays the log of each through the specification's     *)
(* memory of answers.  `memo' maps a key to the first table seen for it.                *)
EXTENDS Judge, IOUtils

Data == LoadJson(IOEnv.TRACE)
N    == Len(Data)

VARIABLES tid, pos, memo
vars == <<tid, pos, memo>>
View == <<tid, pos>>
D == Data[tid]
Log == D.log
Emit(step, js) == AppendJson(IOEnv.OUT, [id |-> D.id, phase |-> "session", step |-> step, judgments |-> js])

\* columns of every table, sparse or not
SparseCols == {"Identifier", "Period", "Education_Level", "Lagged_Choice", "Experience_Part_Time", "Experience_Full_Time",
               "Experience_Stock", "Age_Youngest_Child", "Choice", "Wage_Observed"}
FullCols == SparseCols \cup {"Type", "Partner_Indicator", "Male_Wages",
   "Non_Consumption_Utility_N", "Non_Consumption_Utility_P", "Non_Consumption_Utility_F",
   "Flow_Utility_N", "Flow_Utility_P", "Flow_Utility_F",
   "Continuation_Value_N", "Continuation_Value_P", "Continuation_Value_F",
   "Value_Function_N", "Value_Function_P", "Value_Function_F"}

SameCell(x, y) == (RIsNaN(x) /\ RIsNaN(y)) \/ Same(x, y)
Differs(a, b) == {col \in DOMAIN a \cap DOMAIN b :
   ~(Len(a[col]) = Len(b[col]) /\ \A i \in DOMAIN a[col] : SameCell(a[col][i], b[col][i]))}

\* the more detailed of two tables that agree
Fuller(a, b) == IF DOMAIN a \subseteq DOMAIN b THEN b ELSE a

Observed(e) == e.act \in {"simulate", "call", "pieces"}

Judgments(e) ==
  LET known == e.key \in DOMAIN memo
      bad == IF known THEN Differs(memo[e.key], e.table) ELSE {}
      want == IF e.width = "sparse" THEN SparseCols ELSE FullCols
      Info(x) == [act |-> e.act, key |-> e.key, form |-> e.form, width |-> e.width, columns |-> bad]
  IN << Judgment("session." \o e.act, IF known THEN {1} ELSE {}, LAMBDA x : bad = {}, Info),
        Judgment("session.width." \o e.width, {1}, LAMBDA x : want \subseteq DOMAIN e.table,
                 LAMBDA x : [missing |-> want \ DOMAIN e.table]) >>

Step ==
  /\ pos <= Len(Log)
  /\ LET e == Log[pos]
         touched == IF "same" \in DOMAIN e THEN <<Judgment("session.inputs", {1}, LAMBDA x : e.same, LAMBDA x : [act |-> e.act])>> ELSE <<>>
     IN IF Observed(e)
        THEN /\ Emit(pos, Judgments(e) \o touched)
             /\ memo' = IF e.key \in DOMAIN memo THEN [memo EXCEPT ![e.key] = Fuller(@, e.table)]
                        ELSE (e.key :> e.table) @@ memo
        ELSE Emit(pos, touched) /\ UNCHANGED memo
  /\ pos' = pos + 1 /\ UNCHANGED tid

Finish == /\ pos = Len(Log) + 1 /\ Emit(0, <<Judgment("done", {1}, LAMBDA x : TRUE, LAMBDA x : 0)>>)
          /\ pos' = pos + 1 /\ UNCHANGED <<tid, memo>>

Init == tid \in 1..N /\ pos = 1 /\ memo = [k \in {} |-> 0]
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
