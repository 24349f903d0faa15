------------------------------- MODULE Judge --------------------------------
(* Verdicts.  A judgment evaluates one clause of the specification at every point  *)
(* of a finite set and reports how many points there were, how many failed, and    *)
(* the first that did.                                                              *)
EXTENDS Real64, FiniteSets, TLC

Judgment(clause, D, Ok(_), Info(_)) ==
  LET bad == {x \in D : ~Ok(x)}
  IN [clause |-> clause, n |-> Cardinality(D), bad |-> Cardinality(bad),
      first |-> IF bad = {} THEN <<>>
                ELSE LET x == CHOOSE y \in bad : TRUE IN <<[at |-> x, info |-> Info(x)]>>]

\* numbers agree up to rounding
Tol == Dec("1e-9")
Same(a, b) == Close(a, b, Tol)
=============================================================================
