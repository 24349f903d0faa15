------------------------------- MODULE Real64 -------------------------------
(* Real arithmetic and JSON for TLC.  TLA+'s standard module Reals has no TLC      *)
(* implementation, and TLC's integers are 32 bits wide, so the operators below are *)
(* declared here and implemented (as IEEE-754 doubles) by                          *)
(* /verif/java/tlc2/overrides/Real64.java.  An integer is accepted wherever a real *)
(* is.  Reals never appear in the *discrete* modules of this specification.        *)
EXTENDS Integers, Sequences

LOCAL Undefined(op) == CHOOSE x \in {} : op = x    \* reached only without the override

ToReal(a)   == Undefined("ToReal")    \* the real equal to the number a
Dec(s)      == Undefined("Dec")       \* the real whose decimal text is s
RAdd(a, b)  == Undefined("RAdd")
RSub(a, b)  == Undefined("RSub")
RMul(a, b)  == Undefined("RMul")
RDiv(a, b)  == Undefined("RDiv")
RNeg(a)     == Undefined("RNeg")
RAbs(a)     == Undefined("RAbs")
RMax(a, b)  == Undefined("RMax")
RMin(a, b)  == Undefined("RMin")
RExp(a)     == Undefined("RExp")
RLn(a)      == Undefined("RLn")
RPow(a, b)  == Undefined("RPow")
RFloor(a)   == Undefined("RFloor")    \* the integer part, an Int
RLt(a, b)   == Undefined("RLt")
RLe(a, b)   == Undefined("RLe")
REq(a, b)   == Undefined("REq")
RIsNaN(a)   == Undefined("RIsNaN")
RIsFinite(a) == Undefined("RIsFinite")
RSum(s)     == Undefined("RSum")      \* sum of a sequence of numbers
Close(a, b, tol) == Undefined("Close") \* |a-b| <= tol * Max(1,|a|,|b|), both finite

a \oplus b  == RAdd(a, b)
a \ominus b == RSub(a, b)
a \otimes b == RMul(a, b)
a \oslash b == RDiv(a, b)

LoadJson(path)      == Undefined("LoadJson")   \* the value of a JSON document
DumpJson(path, v)   == Undefined("DumpJson")   \* write v as JSON; TRUE
AppendJson(path, v) == Undefined("AppendJson") \* append v as a JSON line; TRUE
=============================================================================
