----------------------------- MODULE StackTrace -----------------------------
(* mewa.stacktrace: functions call each other, directly or through a C       *)
(* function (pcall, a coroutine), and return. A trace taken lists the frames  *)
(* from the function that takes it down to the one called by C or to the      *)
(* main chunk, without the functions ignored.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS Mode, MaxOps

Cases == IF Mode = "model" THEN << >> ELSE ndJsonDeserialize(IOEnv.CASES)

(* function: [name, line, file, kind], kind "fun" (name as in its header),    *)
(* "part" (the name is a part of what is told), "text" (defined in a text     *)
(* without a file, no name known), "main" (main chunk, no line)               *)
Main == [name |-> << >>, line |-> 0, file |-> << >>, kind |-> "main"]
\* frame: [f: function, byC: called by a C function]
Outer == [f |-> Main, byC |-> TRUE]

Part(s, t) == \E i \in 0..(Len(t) - Len(s)) : SubSeq(t, i + 1, i + Len(s)) = s
Ignored(f, ign) == \E s \in ign : Part(s, f.name)
\* stack: innermost frame last
Bottom(stack) == CHOOSE i \in 1..Len(stack) : stack[i].byC /\ \A j \in (i + 1)..Len(stack) : ~stack[j].byC
Visible(stack, ign) ==
  LET b == Bottom(stack)
      all == [k \in 1..(Len(stack) - b + 1) |-> stack[Len(stack) - k + 1].f]
  IN SelectSeq(all, LAMBDA f : ~Ignored(f, ign))
\* depth -1: no limit
Trace(stack, depth, ign) ==
  LET v == Visible(stack, ign)
  IN IF depth < 0 \/ depth > Len(v) THEN v ELSE SubSeq(v, 1, depth)

Blank == {9, 32}
RECURSIVE Trim(_)
Trim(t) == IF t = << >> THEN t
           ELSE IF t[1] \in Blank THEN Trim(Tail(t))
           ELSE IF t[Len(t)] \in Blank THEN Trim(SubSeq(t, 1, Len(t) - 1)) ELSE t
\* Is e, an element of the list returned, what is told about f?
Tells(e, f) ==
  /\ e.line = f.line
  /\ f.kind # "text" => e.file = f.file
  /\ f.kind = "fun" => Trim(e.name) = f.name
  /\ f.kind = "part" => Part(f.name, e.name)

VARIABLES case, step, stack, ops
vars == <<case, step, stack, ops>>
Init == case = 1 /\ step = 1 /\ stack = <<Outer>> /\ ops = << >>

Call(f, byC) == stack' = Append(stack, [f |-> f, byC |-> byC])
Return == Len(stack) > 1 /\ stack' = SubSeq(stack, 1, Len(stack) - 1)

(* ---- model *)
Fs == {[name |-> <<97>>, line |-> 3, file |-> <<1>>, kind |-> "fun"], [name |-> <<98>>, line |-> 7, file |-> <<1>>, kind |-> "fun"],
       [name |-> <<97, 98>>, line |-> 3, file |-> <<2>>, kind |-> "part"]}
ModelNext ==
  /\ Mode = "model" /\ Len(ops) < MaxOps
  /\ \/ \E f \in Fs, c \in BOOLEAN : Call(f, c) /\ ops' = Append(ops, [op |-> IF c THEN "pcall" ELSE "call", f |-> f])
     \/ Return /\ ops' = Append(ops, [op |-> "return"])
  /\ UNCHANGED <<case, step>>
\* laws
Igns == {{}, {<<97>>}, {<<98>>}, {<<97, 98>>}, {<<97>>, <<98>>}, {<< >>}}
Prefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Laws ==
  \A ign \in Igns :
    LET t == Trace(stack, -1, ign)
    IN /\ \A d \in 0..4 : Prefix(Trace(stack, d, ign), t) /\ Len(Trace(stack, d, ign)) <= d
       /\ \A i \in 1..Len(t) : ~Ignored(t[i], ign)
       /\ ign = {} => Len(t) = Len(stack) - Bottom(stack) + 1 /\ t[1] = stack[Len(stack)].f
       /\ ign = {<< >>} => t = << >>
       \* calls under a call by C see nothing of what is outside
       /\ \A j \in Igns : ign \subseteq j => \A i \in 1..Len(Trace(stack, -1, j)) : \E k \in 1..Len(t) : t[k] = Trace(stack, -1, j)[i]

(* ---- recorded histories: case [id, main, funs, ops], op "call"/"pcall" with *)
(* f, "return", "trace" with depth, ignore and got                            *)
Fault(C, op) ==
  IF op.error # "" THEN "fails: " \o op.error
  ELSE LET st == [i \in 1..Len(stack) |-> IF i = 1 THEN [f |-> C.main, byC |-> TRUE] ELSE stack[i]]
           want == Trace(st, op.depth, {op.ignore[i] : i \in DOMAIN op.ignore})
       IN IF Len(op.got) # Len(want) THEN "number of elements: " \o ToString(Len(op.got)) \o " expected " \o ToString(Len(want))
          ELSE LET B == {i \in 1..Len(want) : ~Tells(op.got[i], want[i])}
               IN IF B = {} THEN "" ELSE "element " \o ToString(CHOOSE i \in B : \A j \in B : i <= j)
CheckStep ==
  /\ Mode = "check" /\ case <= Len(Cases) /\ step <= Len(Cases[case].ops)
  /\ LET C == Cases[case]
         op == C.ops[step]
     IN \/ op.op \in {"call", "pcall"} /\ Call(C.funs[op.f], op.op = "pcall")
        \/ op.op = "return" /\ Return
        \/ op.op = "trace" /\ UNCHANGED stack
           /\ LET f == Fault(C, op) IN IF f = "" THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([id |-> C.id, step |-> step, fault |-> f]))
  /\ step' = step + 1 /\ UNCHANGED <<case, ops>>
CheckEnd ==
  /\ Mode = "check" /\ case <= Len(Cases) /\ step > Len(Cases[case].ops)
  /\ PrintT("DONE " \o ToJson([id |-> Cases[case].id]))
  /\ case' = case + 1 /\ step' = 1 /\ stack' = <<Outer>> /\ UNCHANGED ops
Next == ModelNext \/ CheckStep \/ CheckEnd
Spec == Init /\ [][Next]_vars
Dump == IF "DUMP" \in DOMAIN IOEnv /\ Len(ops) = MaxOps THEN PrintT("OPS " \o ToJson(ops)) ELSE TRUE
=============================================================================
