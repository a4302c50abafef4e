------------------------------ MODULE Errors ------------------------------
(* What a compiler run reports when a function called on a root node       *)
(* fails.  An error of mewa is a code, a line, a file and an argument,     *)
(* written as                                                              *)
(*    #CODE "MESSAGE" at line LINE in file "FILE": ARGUMENT                *)
(* or, for errors found by a compiler in its source (code CompileError),   *)
(*    Error at line LINE in file "FILE": ARGUMENT                          *)
(* where location and argument may be missing.  The error of a function    *)
(* that is written so is the error of the run, with a location added if it *)
(* has none.  Any other error is the argument of an error LuaRuntime.      *)
(* Texts are sequences of bytes.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

CompileError == 423
RuntimeException == 403
LuaRuntime == 591

Quote == 34
Apostrophe == 39
ErrorAtLine == <<69, 114, 114, 111, 114, 32, 97, 116, 32, 108, 105, 110, 101, 32>>
AtLine == <<97, 116, 32, 108, 105, 110, 101, 32>>
InFile == <<105, 110, 32, 102, 105, 108, 101, 32>>
Begins(T, p) == Len(T) >= Len(p) /\ SubSeq(T, 1, Len(p)) = p
From(T, i) == SubSeq(T, i, Len(T))
After(T, p) == From(T, Len(p) + 1)
IsDigit(x) == x >= 48 /\ x <= 57
\* number of the first bytes of T that satisfy P
Span(T, P(_)) == LET E == {i \in 1..Len(T) : ~P(T[i])} IN IF E = {} THEN Len(T) ELSE (CHOOSE i \in E : \A j \in E : i <= j) - 1
Digits(T) == Span(T, IsDigit)
RECURSIVE Number(_)
Number(T) == IF T = << >> THEN 0 ELSE Number(Front(T)) * 10 + (Last(T) - 48)
Unspaced(T) == From(T, Span(T, LAMBDA x : x <= 32) + 1)

(* ---- reading. K: set of [code, text] known                                 *)
None == [code |-> 0, line |-> 0, file |-> << >>, arg |-> << >>]
\* the end of the text: nothing or the argument
ReadArg(e, T) == IF T = << >> THEN e
                 ELSE IF Begins(T, <<58, 32>>) THEN [e EXCEPT !.arg = After(T, <<58, 32>>)] ELSE None
ReadFile(e, T) ==
  LET R == After(T, InFile)
  IN IF Begins(T, InFile) /\ R # << >> /\ R[1] \in {Quote, Apostrophe}
     THEN LET n == Span(Tail(R), LAMBDA x : x # R[1])
          IN ReadArg([e EXCEPT !.file = SubSeq(R, 2, n + 1)], From(R, n + 3))
     ELSE ReadArg(e, T)
ReadLine(e, T) ==
  LET R == After(T, AtLine)
      n == Digits(R)
      rest == From(R, n + 1)
  IN IF Begins(T, AtLine) /\ R # << >>
     THEN IF rest # << >> /\ rest[1] = 32 THEN ReadFile([e EXCEPT !.line = Number(SubSeq(R, 1, n))], Tail(rest))
          ELSE ReadArg([e EXCEPT !.line = Number(SubSeq(R, 1, n))], rest)
     ELSE ReadArg(e, T)
Read(K, T) ==
  IF Begins(T, ErrorAtLine) THEN ReadLine([None EXCEPT !.code = CompileError], From(T, 7))
  ELSE IF ~Begins(T, <<35>>) THEN None
  ELSE LET n == Digits(Tail(T))
           R == Unspaced(From(T, n + 2))
           M == {x \in K : n > 0 /\ x.code = Number(SubSeq(T, 2, n + 1)) /\ Begins(R, <<Quote>> \o x.text \o <<Quote>>)}
           x == CHOOSE y \in M : TRUE
       IN IF M = {} THEN None ELSE ReadLine([None EXCEPT !.code = x.code], Unspaced(From(R, Len(x.text) + 3)))

(* ---- writing                                                               *)
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Decimal(n \div 10), 48 + (n % 10))
Quoted(x) == <<Quote>> \o x \o <<Quote>>
Write(K, e) ==
  LET head == <<35>> \o Decimal(e.code) \o <<32>> \o Quoted((CHOOSE x \in K : x.code = e.code).text)
      place == AtLine \o Decimal(e.line) \o (IF e.file = << >> THEN << >> ELSE <<32>> \o InFile \o Quoted(e.file))
      arg == IF e.arg = << >> THEN << >> ELSE <<58, 32>> \o e.arg
  IN IF e.code = CompileError THEN From(ErrorAtLine, 1) \o After(place, AtLine) \o arg
     ELSE head \o (IF e.line = 0 THEN << >> ELSE <<32>> \o place) \o arg

(* ---- the error of a run                                                    *)
\* head of the error of the run that is no error of mewa
LuaError(K) == <<35>> \o Decimal(LuaRuntime) \o <<32>> \o Quoted((CHOOSE x \in K : x.code = LuaRuntime).text)
\* text ends with ": " and the argument
EndsWith(T, a) == Len(T) >= Len(a) /\ From(T, Len(T) - Len(a) + 1) = a
\* K: codes known; C.m: error of the function, C.kind "text" or "none" (no string or number), C.t: error of the run
Fault(K, C) ==
  LET p == IF C.kind = "text" THEN Read(K, C.m) ELSE None
      o == Read(K, C.t)
  IN CASE C.ok -> "no error"
       [] C.calls # C.fails -> "functions called"
       [] p.code = 0 -> IF ~Begins(C.t, LuaError(K)) THEN "code of the error"
                        \* the text, maybe with the place it is from
                        ELSE IF C.kind = "text" /\ C.m # << >> /\ ~EndsWith(C.t, C.m) THEN "text of the error"
                        ELSE IF C.kind = "text" /\ C.m # << >> /\ ~C.placed /\ ~EndsWith(C.t, <<58, 32>> \o C.m) THEN "text before the error"
                        ELSE ""
       [] o.code # p.code -> "code of the error"
       [] o.arg # p.arg -> "argument of the error"
       [] p.line # 0 /\ <<o.line, o.file>> # <<p.line, p.file>> -> "location of the error"
       [] OTHER -> ""

Mode == IOEnv.MODE
Cases == IF Mode = "model" THEN << >> ELSE ndJsonDeserialize(IOEnv.CASES)
Known == IF Mode = "model" THEN {[code |-> 1, text |-> <<107>>], [code |-> 12, text |-> <<107, 34, 58, 32, 107>>]}
         ELSE LET F == ndJsonDeserialize(IOEnv.KNOWN) IN {F[i] : i \in DOMAIN F}

VARIABLES case, text
vars == <<case, text>>

(* ---- model: texts made of pieces                                           *)
CONSTANT MaxPieces
Quick == 3
Thorough == 4
Pieces == {<<35, 49>>, <<32>>, Quoted(<<107>>), <<35, 49, 50, 32>>, Quoted(<<107, 34, 58, 32, 107>>), AtLine, InFile, <<51>>, <<49, 48>>, <<58, 32>>,
           <<120>>, Quoted(<<102>>), Quoted(<<102, 32, 58>>), <<Quote>>, ErrorAtLine, <<10>>}
Starts == {ErrorAtLine, <<35, 49, 32>> \o Quoted(<<107>>), <<35, 49, 50>> \o Quoted(<<107, 34, 58, 32, 107>>), << >>}
\* what is read is written in a form that is read as the same
ReadWrite ==
  LET e == Read(Known, text)
      w == Write(Known, e)
  IN (e.code # 0 /\ (e.line # 0 \/ e.code # CompileError) /\ (e.line = 0 => e.file = << >>) /\ Quote \notin {e.file[i] : i \in DOMAIN e.file}) => Read(Known, w) = e
\* nothing of an argument is lost or added
KeepsArg == LET e == Read(Known, text) IN e.arg # << >> => EndsWith(text, <<58, 32>> \o e.arg)
\* the location does not depend on what follows ": "
ArgIsFree == LET e == Read(Known, text) IN e.arg # << >> => \A x \in {<<34>>, <<58, 32>>, AtLine} : Read(Known, text \o x) = [e EXCEPT !.arg = e.arg \o x]
Laws == ReadWrite /\ KeepsArg /\ ArgIsFree

Init == case = <<1, 0>> /\ text \in (IF Mode = "model" THEN Starts ELSE {<< >>})
Enumerate == Mode = "model" /\ case[2] < MaxPieces /\ \E p \in Pieces : text' = text \o p /\ case' = <<1, case[2] + 1>>
CheckCase ==
  /\ Mode # "model" /\ case[1] <= Len(Cases)
  /\ LET C == Cases[case[1]]
         K == Known \cup {C.extra[i] : i \in DOMAIN C.extra}
         f == Fault(K, C)
     IN /\ IF f = "" THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([id |-> C.id, fault |-> f]))
        /\ PrintT("DONE " \o ToJson([id |-> C.id, mewa |-> IF C.kind = "text" THEN Read(K, C.m).code ELSE 0]))
  /\ case' = <<case[1] + 1, 0>> /\ UNCHANGED text
Next == Enumerate \/ CheckCase
Spec == Init /\ [][Next]_vars
=============================================================================
