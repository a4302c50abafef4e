-------------------------------- MODULE Cli --------------------------------
(* The command line of mewa: the arguments are read one by one into the       *)
(* settings of the run; the run then writes one output and the debug output,  *)
(* or fails. MODE=model enumerates all arguments up to MaxArgs and checks     *)
(* the laws; otherwise the runs recorded in CASES are judged.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANT MaxArgs
Mode == IF "MODE" \in DOMAIN IOEnv THEN IOEnv.MODE ELSE "check"

\* ---- arguments: [k, v], k the option meant, v the value attached to it.
\* A word is [k |-> "word", v |-> text], "--" is "dd", unknown options "bad".
Valued == {"o", "d", "t", "b"}
Commands == {"g", "s", "l"}

(* ---- state of the reader: the settings, what is left to do ("read": options *)
(* follow, "rest": the input file follows), or how it ended                   *)
Start == [st |-> "read", cmd |-> "", o |-> "", d |-> "", t |-> "", b |-> "", verb |-> FALSE, rest |-> << >>]
Failed(s) == [s EXCEPT !.st = "fail"]
\* stubs (-s) have neither a template nor a Lua program nor debug output
Conflict(s, k) ==
  \/ k \in Commands /\ s.cmd # ""
  \/ k = "s" /\ (s.b # "" \/ s.t # "" \/ s.d # "")
  \/ k \in {"b", "t", "d"} /\ s.cmd = "s"
Set(s, k, v) == IF k = "o" THEN [s EXCEPT !.o = v]
                ELSE IF k = "d" THEN [s EXCEPT !.d = v]
                ELSE IF k = "t" THEN [s EXCEPT !.t = v]
                ELSE [s EXCEPT !.b = v]

\* one step: <<state, arguments used>>
ReadOne(s, a, pos, readable) ==
  LET x == a[pos]
      next == pos + 1 <= Len(a) /\ a[pos + 1].k = "word"
      v == IF x.v # "" THEN x.v ELSE IF next THEN a[pos + 1].v ELSE ""
      used == IF x.v # "" THEN 1 ELSE 2
  IN CASE s.st = "rest" -> <<[s EXCEPT !.rest = Append(@, x)], 1>>
       [] x.k = "word" -> <<[s EXCEPT !.st = "rest", !.rest = <<x>>], 1>>
       [] x.k = "dd" -> <<[s EXCEPT !.st = "rest"], 1>>
       [] x.k = "h" -> <<[s EXCEPT !.st = "usage"], 1>>
       [] x.k = "v" -> <<[s EXCEPT !.st = "version"], 1>>
       [] x.k = "V" -> <<[s EXCEPT !.verb = TRUE], 1>>
       [] x.k \in Commands -> IF Conflict(s, x.k) THEN <<Failed(s), 1>> ELSE <<[s EXCEPT !.cmd = x.k], 1>>
       [] x.k \in Valued -> IF Conflict(s, x.k) \/ v = "" \/ (x.k = "t" /\ v \notin readable) THEN <<Failed(s), 1>>
                            ELSE <<Set(s, x.k, v), used>>
       [] OTHER -> <<Failed(s), 1>>
Ended(s) == s.st \in {"fail", "usage", "version"}
AtEnd(s) ==
  IF Ended(s) THEN s
  ELSE IF Len(s.rest) # 1 \/ (s.o # "" /\ s.cmd = "") THEN Failed(s)
  ELSE [s EXCEPT !.st = "run"]
\* the input is a word; no file has the name of an option
Named(s) == s.st = "run" /\ s.rest[1].k = "word"
RECURSIVE ReadFrom(_, _, _, _)
ReadFrom(s, a, pos, readable) ==
  IF Ended(s) \/ pos > Len(a) THEN s
  ELSE LET r == ReadOne(s, a, pos, readable) IN ReadFrom(r[1], a, pos + r[2], readable)
Reading(a, readable) == ReadFrom(Start, a, 1, readable)
Read(a, readable) == AtEnd(Reading(a, readable))

(* ---- effect of a run. kind: what the input file is ("good", "conflict",    *)
(* "broken", "" not readable); bad: names of files that cannot be written,    *)
(* "" in it if this is the standard output.                                   *)
\* [ok, out: what is written to the output, to: name of the file or "" for
\*  standard output, dbg: whether the debug output is written, dto: where]
NoEffect(ok) == [ok |-> ok, out |-> "", to |-> "", dbg |-> "no", dto |-> ""]
What(cmd) == IF cmd = "g" THEN "script" ELSE IF cmd = "s" THEN "stubs" ELSE IF cmd = "l" THEN "description" ELSE ""
Effect(s, kind, bad) ==
  IF s.st = "usage" THEN NoEffect(TRUE)
  ELSE IF s.st = "version" THEN [NoEffect(TRUE) EXCEPT !.out = "version"]
  ELSE IF s.st = "fail" \/ kind \in {"", "broken"} THEN NoEffect(FALSE)
  ELSE LET builds == s.cmd \in {"", "g"}                 \* the tables are built
           verb == builds /\ (s.verb \/ s.d # "")
           fails == \/ builds /\ kind = "conflict"
                    \/ s.cmd # "" /\ s.o \in bad
                    \/ builds /\ s.d # "" /\ s.d \in bad
           \* the tables with a conflict are shown by the debug output
           shown == builds /\ kind = "conflict" /\ ~(s.cmd # "" /\ s.o \in bad) /\ s.d \notin bad
       IN IF fails THEN [NoEffect(FALSE) EXCEPT !.dbg = IF ~verb THEN "no" ELSE IF shown THEN "conflict" ELSE "may", !.dto = s.d]
          ELSE [ok |-> TRUE, out |-> What(s.cmd), to |-> s.o, dbg |-> IF verb THEN "yes" ELSE "no", dto |-> s.d]

(* ---- the script: the template with each %key% replaced                     *)
PC == 37
Holder(key) == <<PC>> \o key \o <<PC>>
At(T, i, p) == i + Len(p) - 1 <= Len(T) /\ SubSeq(T, i, i + Len(p) - 1) = p
\* K: set of [n |-> key, t |-> value]
Fill(T, K) ==
  LET pc == {i \in 1..Len(T) : T[i] = PC}
      \* the key replaced at each position, if any
      holds == [i \in pc |-> {x \in K : At(T, i, Holder(x.n))}]
      begins == {i \in pc : holds[i] # {}}
      the(i) == CHOOSE x \in holds[i] : TRUE
      inside == UNION {i..(i + Len(the(i).n) + 1) : i \in begins}
  IN FlattenSeq([i \in 1..Len(T) |-> IF i \in begins THEN the(i).t ELSE IF i \in inside THEN << >> ELSE <<T[i]>>])

Has(T, p) == \E i \in 1..Len(T) : At(T, i, p)
RECURSIVE Strip(_)
Strip(T) == IF T # << >> /\ T[Len(T)] = 10 THEN Strip(SubSeq(T, 1, Len(T) - 1)) ELSE T

(* ---- recorded runs                                                         *)
Cases == IF Mode = "model" THEN << >> ELSE ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, args
vars == <<case, args>>

FilesOf(C, kinds) == {C.files[i].name : i \in {j \in DOMAIN C.files : C.files[j].kind \in kinds}}
Kind(C, name) == LET I == {j \in DOMAIN C.files : C.files[j].name = name}
                 IN IF I = {} THEN "" ELSE C.files[CHOOSE j \in I : TRUE].kind
Text(C, name) == LET I == {j \in DOMAIN C.files : C.files[j].name = name} IN C.files[CHOOSE j \in I : TRUE].text
Quoted(x) == <<34>> \o x \o <<34>>
DefaultLua == <<47, 117, 115, 114, 47, 98, 105, 110, 47, 108, 117, 97>>  \* /usr/bin/lua
Values(C, s, lua) ==
  {[n |-> C.keys.typesystem, t |-> C.typesystem], [n |-> C.keys.language, t |-> C.language],
   [n |-> C.keys.cmdline, t |-> C.cmdline], [n |-> C.keys.automaton, t |-> <<C.table>>],
   [n |-> C.keys.luabin, t |-> lua]}
LuaOf(C, s) == IF s.b = "" THEN DefaultLua ELSE C.words[CHOOSE i \in DOMAIN C.words : C.words[i].name = s.b].text
IsScript(C, s, T) ==
  LET lua == LuaOf(C, s)
  IN IF s.t # "" THEN Strip(T) = Strip(Fill(Text(C, s.t), Values(C, s, lua)))
     ELSE \* default template: starts with the Lua program, loads the type system (and
          \* the command line parser of the language), has the table once
          /\ At(T, 1, <<35, 33>> \o lua \o <<10>>)
          /\ Has(T, Quoted(C.typesystem))
          /\ C.cmdline # << >> => Has(T, Quoted(C.cmdline)) /\ Has(T, Quoted(C.language))
          /\ Cardinality({i \in 1..Len(T) : T[i] = C.table}) = 1
\* T: text written; the references of the input are single codes
IsOutput(C, s, what, T) ==
  IF what = "" THEN T = << >>
  ELSE IF what = "script" THEN IsScript(C, s, T)
  ELSE IF what = "version" THEN T # << >>
  ELSE Strip(T) = <<IF what = "stubs" THEN C.stubs ELSE C.description>>

Fault(C) ==
  LET readable == {C.files[i].name : i \in DOMAIN C.files}
      s == Read(C.args, readable)
      e == Effect(s, IF Named(s) THEN Kind(C, s.rest[1].v) ELSE "", {C.bad[i] : i \in DOMAIN C.bad})
      O == C.observed
      changed(n) == \E i \in DOMAIN O.changed : O.changed[i].name = n
      textof(n) == O.changed[CHOOSE i \in DOMAIN O.changed : O.changed[i].name = n].text
      may == (IF e.ok /\ e.out # "" /\ e.to # "" THEN {e.to} ELSE {}) \cup (IF e.dbg # "no" /\ e.dto # "" THEN {e.dto} ELSE {})
      onstd == e.out # "" /\ e.to = ""
  IN CASE e.ok /\ O.status # 0 -> "fails"
       [] ~e.ok /\ O.status = 0 -> "succeeds"
       [] \E i \in DOMAIN O.changed : O.changed[i].name \notin may -> "writes another file"
       [] e.dbg = "conflict" /\ e.dto # "" /\ (IF changed(e.dto) THEN textof(e.dto) # <<C.cdebug>> ELSE TRUE) -> "debug file of a conflict"
       [] e.dbg = "conflict" /\ e.dto = "" /\ (IF O.stderr # << >> THEN O.stderr[1] # C.cdebug ELSE TRUE) -> "debug output of a conflict"
       [] ~e.ok -> IF O.stderr = << >> THEN "fails without a message" ELSE IF O.stdout # << >> THEN "fails but writes the output" ELSE ""
       [] \E n \in may : ~changed(n) -> "does not write the file"
       [] s.st = "usage" -> IF O.stderr = << >> THEN "no usage" ELSE ""
       \* one file for both: the output is written last
       [] e.dbg = "yes" /\ e.dto # "" /\ ~(e.dto = e.to /\ e.out # "") /\ textof(e.dto) # <<C.debug>> -> "debug file"
       [] O.stderr # (IF e.dbg = "yes" /\ e.dto = "" THEN <<C.debug>> ELSE << >>) -> "error output"
       [] ~IsOutput(C, s, IF onstd THEN e.out ELSE "", O.stdout) -> "standard output"
       [] e.out # "" /\ e.to # "" /\ ~IsOutput(C, s, e.out, textof(e.to)) -> "output file"
       [] OTHER -> ""

(* ---- model: all sequences of arguments over a small alphabet               *)
A(k, v) == [k |-> k, v |-> v]
Alphabet == {A("g", ""), A("s", ""), A("l", ""), A("V", ""), A("v", ""), A("h", ""), A("bad", ""), A("dd", ""),
             A("o", ""), A("o", "o1"), A("d", ""), A("d", "d1"), A("t", ""), A("t", "t1"), A("t", "no"), A("b", ""), A("b", "L1"),
             A("word", "good"), A("word", "t1"), A("word", "no")}
Here == {"good", "t1", "bad", "conflict"}
KindHere(n) == IF n \in {"good", "conflict"} THEN n ELSE IF n \in {"t1", "bad"} THEN "broken" ELSE ""
EffectOf(a) == LET s == Read(a, Here) IN Effect(s, IF Named(s) THEN KindHere(s.rest[1].v) ELSE "", {"no/x"})
\* what the run is apart from the order of the arguments
Meaning(a) == LET s == Read(a, Here) IN <<s.st, s.cmd, s.o, s.d, s.t, s.b, s.verb, s.rest, EffectOf(a)>>

\* the options, each with its value, at the begin of a: sequence of their lengths
RECURSIVE Units(_, _)
Units(a, pos) ==
  IF pos > Len(a) \/ a[pos].k \in {"word", "dd"} THEN << >>
  ELSE LET n == IF a[pos].k \in Valued /\ a[pos].v = "" /\ pos < Len(a) /\ a[pos + 1].k = "word" THEN 2 ELSE 1
       IN <<n>> \o Units(a, pos + n)
RECURSIVE Sum(_, _)
Sum(u, n) == IF n = 0 THEN 0 ELSE u[n] + Sum(u, n - 1)
Exits == {"h", "v"}
\* Two options of different kind may change places; what fails then fails as well.
OrderOfOptions ==
  LET u == Units(args, 1)
  IN \A i \in 1..(Len(u) - 1) :
       LET p == Sum(u, i - 1)  \* before the two
           x == SubSeq(args, p + 1, p + u[i])
           y == SubSeq(args, p + u[i] + 1, p + u[i] + u[i + 1])
           swapped == SubSeq(args, 1, p) \o y \o x \o SubSeq(args, p + u[i] + u[i + 1] + 1, Len(args))
           m == Meaning(args)
           w == Meaning(swapped)
       IN x[1].k # y[1].k /\ {x[1].k, y[1].k} \cap Exits = {}
            \* an option without its value takes what follows
            /\ (\A z \in {x, y} : z[1].k \in Valued => z[1].v # "" \/ Len(z) = 2)
          => IF m[1] \in {"fail"} THEN w[1] = "fail" ELSE w = m
\* A value given attached or as the next argument is the same.
Attached ==
  LET u == Units(args, 1)
  IN \A i \in 1..Len(u) :
       u[i] = 2 => LET p == Sum(u, i - 1)
                   IN Meaning(SubSeq(args, 1, p) \o <<A(args[p + 1].k, args[p + 2].v)>> \o SubSeq(args, p + 3, Len(args))) = Meaning(args)
\* Nothing is written by a run that fails, and one that succeeds has exactly one thing to write.
Effects ==
  LET e == EffectOf(args)
      s == Read(args, Here)
  IN /\ ~e.ok => e.out = "" /\ e.dbg # "yes"
     /\ s.st = "run" => Cardinality({i \in 1..Len(args) : args[i].k \in Commands}) <= 1 \/ \E i \in 1..Len(args) : args[i].k = "dd"
     /\ s.st = "run" /\ e.ok /\ e.out = "" => s.cmd = ""
     /\ e.ok /\ e.to # "" => \E i \in 1..Len(args) : args[i].k = "o"
Laws == OrderOfOptions /\ Attached /\ Effects

Letters == {PC, 97, 98}
Strings(n) == UNION {[1..m -> Letters] : m \in 0..n}
FillLaws ==
  LET K == {[n |-> <<97>>, t |-> <<98, 98>>], [n |-> <<98, 97>>, t |-> << >>]}
      Same == {[n |-> x.n, t |-> Holder(x.n)] : x \in K}
  IN \A T \in Strings(6) :
       /\ Fill(T, {}) = T
       /\ (\A x \in K : ~Has(T, Holder(x.n))) => Fill(T, K) = T
       /\ (\A i, j \in 1..Len(T) : i < j /\ T[i] = PC /\ T[j] = PC => j = i + 1 \/ j = i + 2) => Fill(T \o <<97>>, K) = Fill(T, K) \o <<97>>
ASSUME Mode = "model" => FillLaws

Init == args = << >> /\ case = 1
\* the arguments may go on
Goes(a) == IF a = << >> THEN TRUE
           ELSE IF Ended(Reading(a, Here)) THEN a[Len(a)].k \in Valued /\ a[Len(a)].v = "" ELSE TRUE
Enumerate == Mode = "model" /\ Len(args) < MaxArgs /\ Goes(args)
             /\ \E a \in Alphabet : args' = Append(args, a) /\ UNCHANGED case
CheckCase ==
  /\ Mode # "model" /\ case <= Len(Cases)
  /\ LET C == Cases[case]
         f == Fault(C)
     IN /\ IF f = "" THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([id |-> C.id, fault |-> f]))
        /\ PrintT("DONE " \o ToJson([id |-> C.id, st |-> Read(C.args, {C.files[i].name : i \in DOMAIN C.files}).st]))
  /\ case' = case + 1 /\ UNCHANGED args
Next == Enumerate \/ CheckCase
Spec == Init /\ [][Next]_vars
Dump == IF "DUMP" \in DOMAIN IOEnv /\ args # << >> THEN PrintT("ARGS " \o ToJson(args)) ELSE TRUE
=============================================================================
