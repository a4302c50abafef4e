-------------------------------- MODULE Ieee --------------------------------
(***************************************************************************)
(* Floating-point numbers as bits, and the rounding of a wide format to a  *)
(* narrow one.  A number is a sequence of bits, sign first, then exponent  *)
(* and fraction.  Nearest(b, w, t) are the bits, in the wide format w, of   *)
(* the numbers of the narrow format t nearest to b: two if b lies in the    *)
(* middle of two numbers, one otherwise.                                   *)
(*                                                                         *)
(* Checked with TLC for all numbers of small formats (against the nearest  *)
(* number found by comparing all of them as integers) and used for double  *)
(* and float on what mewa.llvm_float_tohex and llvm_double_tohex return.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Format(e, m) == [e |-> e, m |-> m]
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 2 * Pow(n - 1)
Bias(f) == Pow(f.e - 1) - 1
Width(f) == 1 + f.e + f.m
RECURSIVE Num(_)
Num(bs) == IF bs = << >> THEN 0 ELSE 2 * Num(SubSeq(bs, 1, Len(bs) - 1)) + bs[Len(bs)]
Bits(n, len) == [i \in 1..len |-> (n \div Pow(len - i)) % 2]
Zeros(n) == [i \in 1..n |-> 0]
AllZero(bs) == \A i \in 1..Len(bs) : bs[i] = 0

Sign(b) == b[1]
Exp(b, f) == Num(SubSeq(b, 2, f.e + 1))
Frac(b, f) == SubSeq(b, f.e + 2, Width(f))
IsNaN(b, f) == Exp(b, f) = Pow(f.e) - 1 /\ ~AllZero(Frac(b, f))
IsInf(b, f) == Exp(b, f) = Pow(f.e) - 1 /\ AllZero(Frac(b, f))
Zero(s, f) == <<s>> \o Zeros(f.e + f.m)
Inf(s, f) == <<s>> \o Bits(Pow(f.e) - 1, f.e) \o Zeros(f.m)
\* the number 1.fraction times 2 to the power x, x in the range of normal numbers
Number(s, x, frac, f) == <<s>> \o Bits(x + Bias(f), f.e) \o [i \in 1..f.m |-> IF i <= Len(frac) THEN frac[i] ELSE 0]

\* a significand (leading one first) and its exponent, plus one in the last place
RECURSIVE Plus1(_)
Plus1(bs) == IF bs = << >> THEN <<1>>
             ELSE IF bs[Len(bs)] = 0 THEN [bs EXCEPT ![Len(bs)] = 1]
             ELSE Plus1(SubSeq(bs, 1, Len(bs) - 1)) \o <<0>>

\* smallest and greatest exponent of the narrow format, exponent of its last place below the normal numbers
Emin(t) == 1 - Bias(t)
Emax(t) == Bias(t)
Last(t) == Emin(t) - t.m

Down(s, x, kept, w) == IF kept = << >> THEN Zero(s, w) ELSE Number(s, x, Tail(kept), w)
Up(s, x, kept, w, t) ==
  IF kept = << >> THEN Number(s, x + 1, << >>, w)   \* from below the last place up to it
  ELSE LET p == Plus1(kept)
           y == IF Len(p) > Len(kept) THEN x + 1 ELSE x
       IN IF y > Emax(t) THEN Inf(s, w) ELSE Number(s, y, Tail(p), w)

Nearest(b, w, t) ==
  LET s == Sign(b)
      x == Exp(b, w) - Bias(w)
      sig == <<1>> \o Frac(b, w)
      keep == IF x >= Emin(t) THEN t.m + 1 ELSE x - Last(t) + 1   \* bits of the significand kept
      kept == SubSeq(sig, 1, keep)
      rest == SubSeq(sig, keep + 1, Len(sig))
  IN IF Exp(b, w) = Pow(w.e) - 1 THEN {b}        \* infinity; NaN is compared otherwise
     ELSE IF Exp(b, w) = 0 \/ keep < 0 THEN {Zero(s, w)}
     ELSE IF x > Emax(t) THEN {Inf(s, w)}
     ELSE IF rest = << >> \/ rest[1] = 0 THEN {Down(s, x, kept, w)}
     ELSE IF AllZero(Tail(rest)) THEN {Down(s, x, kept, w), Up(s, x, kept, w, t)}
     ELSE {Up(s, x, kept, w, t)}

\* is the number in the wide format one of the narrow format
Fits(b, w, t) ==
  LET x == Exp(b, w) - Bias(w)
      keep == IF x >= Emin(t) THEN t.m ELSE x - Last(t)
  IN \/ Exp(b, w) = 0 /\ AllZero(Frac(b, w))
     \/ IsInf(b, w) \/ IsNaN(b, w)
     \/ x >= Last(t) /\ x <= Emax(t) /\ AllZero(SubSeq(Frac(b, w), keep + 1, w.m))

\* ---- laws on small formats, with numbers as integers: multiples of the smallest number of the wide format
Wide == Format(4, 4)
Narrow == Format(3, 2)
Value(b, f) == LET e == Exp(b, f)
                   m == Num(Frac(b, f))
                   v == IF e = 0 THEN m ELSE (m + Pow(f.m)) * Pow(e - 1)
               IN IF Sign(b) = 1 THEN -v ELSE v
\* infinity stands for the number after the greatest one
Position(b) == IF IsInf(b, Wide) THEN (IF Sign(b) = 1 THEN -1 ELSE 1) * Value(Number(0, Emax(Narrow) + 1, << >>, Wide), Wide) ELSE Value(b, Wide)
Dist(a, b) == IF a < b THEN b - a ELSE a - b

Mode == IF "CASES" \in DOMAIN IOEnv THEN "check" ELSE "model"
Cases == IF Mode = "check" THEN JsonDeserialize(IOEnv.CASES) ELSE << >>
All == {Bits(n, Width(Wide)) : n \in 0..(Pow(Width(Wide)) - 1)}
Targets == {a \in All : Fits(a, Wide, Narrow) /\ ~IsNaN(a, Wide)}

VARIABLES b, c
\* ---- observations: {b: bits of the number, f, d: bits of the numbers returned (empty if they are no hexadecimal number)}
Double == Format(11, 52)
Float == Format(8, 23)
Report(what, want) == PrintT("MISMATCH " \o ToJson([case |-> c - 1, what |-> what, want |-> want]))
CheckCase(q) ==
  /\ IF q.d = q.b \/ (Len(q.d) = 64 /\ IsNaN(q.d, Double) /\ IsNaN(q.b, Double)) THEN TRUE ELSE Report("llvm_double_tohex is not the number", q.b)
  /\ IF IsNaN(q.b, Double) THEN (IF Len(q.f) = 64 /\ IsNaN(q.f, Double) THEN TRUE ELSE Report("llvm_float_tohex of NaN is a number", << >>))
     ELSE LET n == Nearest(q.b, Double, Float) IN
          IF q.f \in n THEN TRUE ELSE Report("llvm_float_tohex is not a nearest float", CHOOSE x \in n : TRUE)

Init == /\ c = 1
        /\ b \in (IF Mode = "model" THEN All ELSE {<< >>})
Next == /\ Mode = "check" /\ c <= Len(Cases)
        /\ CheckCase(Cases[c])
        /\ PrintT("DONE " \o ToJson([case |-> c - 1]))
        /\ c' = c + 1 /\ UNCHANGED b
Spec == Init /\ [][Next]_<<b, c>>

InModel == Mode = "model" /\ ~IsNaN(b, Wide)
Magnitude == Dist(Value(b, Wide), 0)
Same == {a \in Targets : Sign(a) = Sign(b)}
\* exactly the numbers of the narrow format that are nearest, infinity where the next number would be
IsNearest ==
  InModel => LET N == TLCEval(Nearest(b, Wide, Narrow))
                 same == TLCEval(Same)
                 D == TLCEval([a \in same |-> Dist(Value(b, Wide), Position(a))])
             IN IF Magnitude >= Position(Inf(0, Wide)) THEN N = {Inf(Sign(b), Wide)}
                ELSE N = {a \in same : \A x \in same : D[a] <= D[x]}
Kept == (InModel /\ Fits(b, Wide, Narrow)) => Nearest(b, Wide, Narrow) = {b}
===========================================================================
