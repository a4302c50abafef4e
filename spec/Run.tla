------------------------------- MODULE Run -------------------------------
(***************************************************************************)
(* compiler:run: where the output of a run goes.                           *)
(*                                                                         *)
(* Runs of compilers may nest: a function called by a run may start        *)
(* another one (of the same or another compiler), protected by pcall or    *)
(* not.  "stack" holds the runs under way, innermost last, each with the   *)
(* text printed into its sections.  A step is one operation of a program:  *)
(*   start  begins a run (or fails at once: source, target or debug file   *)
(*          cannot be opened, read or written, or the source is no         *)
(*          sentence)                                                      *)
(*   print  appends to a section of the innermost run; outside of all runs *)
(*          it is the print of Lua                                         *)
(*   debug  writes a line to the debug output of the innermost run         *)
(*   end    maps the target template and writes the output, or fails if    *)
(*          it cannot be written                                           *)
(*   fail   raises an error in the innermost run                           *)
(* A run that fails writes nothing; the error ends the enclosing run too   *)
(* unless the failing run was started protected.  The code of the error is *)
(* that of the operating system where a file is the cause.  Texts, names   *)
(* and contents are sequences of characters (code points).                 *)
(*                                                                         *)
(* With Mode = "model" the machine takes every step that is possible, up   *)
(* to MaxSteps, and the laws below are checked; the histories are dumped   *)
(* and run by the real module.  With Mode = "check" it follows recorded    *)
(* histories (file CASES) and compares what was observed after every step. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS Mode, MaxSteps, MaxRuns

\* ---- characters
LB == 123
RB == 125
NL == 10
IsAlpha(x) == x \in 65..90 \/ x \in 97..122 \/ x = 95
IsAlnum(x) == IsAlpha(x) \/ x \in 48..57
IsIdentifier(s) == Len(s) >= 2 /\ IsAlpha(s[1]) /\ \A i \in 2..Len(s) : IsAlnum(s[i])

CodeSection == <<67, 111, 100, 101>>
SourceSection == <<83, 111, 117, 114, 99, 101>>
TripleSection == <<84, 114, 105, 112, 108, 101>>
NilText == <<60, 110, 105, 108, 62>>

RECURSIVE Cat(_)
Cat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Cat(Tail(ss))
\* what an argument of print is shown as; <<-1>> is nil
Shown(a) == IF a = <<-1>> THEN NilText ELSE a
Text(args) == Cat([i \in DOMAIN args |-> Shown(args[i])])

\* position of the first x in s at or after i, 0 if none
RECURSIVE Find(_, _, _)
Find(s, x, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = x THEN i ELSE Find(s, x, i + 1)
FindLast(s, x) == LET P == {j \in 1..Len(s) : s[j] = x}
                  IN IF P = {} THEN 0 ELSE CHOOSE j \in P : \A k \in P : j >= k

\* sections: set of records [n: name, t: text], one per name
Has(sec, n) == \E x \in sec : x.n = n
Sec(sec, n) == IF Has(sec, n) THEN (CHOOSE x \in sec : x.n = n).t ELSE << >>
With(sec, n, t) == {x \in sec : x.n # n} \cup {[n |-> n, t |-> t]}

\* ---- mapping of a template T: {name} is replaced by the text of the
\* section, or by nothing if there is none and the name is an identifier;
\* any other brace is text
RECURSIVE Format(_, _)
Format(T, sec) ==
  LET b == Find(T, LB, 1)
      e == IF b = 0 THEN 0 ELSE Find(T, RB, b + 1)
  IN IF e = 0 THEN T
     ELSE LET key == SubSeq(T, b + 1, e - 1)
              rest == SubSeq(T, e + 1, Len(T))
          IN IF Has(sec, key) \/ IsIdentifier(key)
             THEN SubSeq(T, 1, b - 1) \o Sec(sec, key) \o Format(rest, sec)
             ELSE SubSeq(T, 1, b) \o Format(SubSeq(T, b + 1, Len(T)), sec)

\* the target triple is the name of the target file without directories
\* and without its extension
Triple(name) ==
  LET base == SubSeq(name, FindLast(name, 47) + 1, Len(name))
      dot == FindLast(base, 46)
  IN IF dot > 1 THEN SubSeq(base, 1, dot - 1) ELSE base

OutputOf(f) == Format(f.tpl, With(With(f.sec, SourceSection, f.src), TripleSection, Triple(f.tgt)))

\* ---- recorded histories
Cases == IF Mode = "check" THEN ndJsonDeserialize(IOEnv.CASES) ELSE << >>

\* ---- machine
\* files: set of [n, t]; debugs: set of [n, t]: lines written with debug
VARIABLES stack, files, debugs, out, err, runs, hist, c
vars == <<stack, files, debugs, out, err, runs, hist, c>>

Case == Cases[c.case]
\* the standard stream that has no space left: "stdout", "stderr" or ""
Full == IF Mode = "check" THEN Case.full ELSE ""

Empty == /\ stack = << >>
         /\ files = {}
         /\ debugs = {}
         /\ out = << >>
         /\ err = << >>
         /\ runs = << >>

\* runs: outcomes in the order the runs end: 0 or the code of the error,
\* AnyError for errors raised by a function (see Errors)
ENOENT == 2
EISDIR == 21
ENOSPC == 28
SyntaxError == 601
AnyError == -1
\* What is wrong with a run: no such file or directory, a directory, or no
\* space left where something is to be written
StartFails == {"source", "sourcedir", "target", "targetdir", "debugfile", "debugdir", "debugfull", "syntax"}
EndFails == {"output", "outputdir", "outputfull"}
CodeOf(bad) == CASE bad \in {"source", "target", "debugfile", "output"} -> ENOENT
                 [] bad \in {"sourcedir", "targetdir", "debugdir", "outputdir"} -> EISDIR
                 [] bad \in {"debugfull", "outputfull"} -> ENOSPC
                 [] bad = "syntax" -> SyntaxError
Top == stack[Len(stack)]
IsFile(n) == n # "stdout" /\ n # "stderr"

\* frames left when the innermost of st fails, and the outcomes
RECURSIVE Unwound(_)
Unwound(st) == IF st[Len(st)].prot \/ Len(st) = 1 THEN SubSeq(st, 1, Len(st) - 1)
               ELSE Unwound(SubSeq(st, 1, Len(st) - 1))
Failed(n, code) == [i \in 1..n |-> code]
\* a new run or the innermost one fails: st is the stack with it
Fail(st, code) == LET s == Unwound(st)
                  IN /\ stack' = s
                     /\ runs' = runs \o Failed(Len(st) - Len(s), code)
                     /\ UNCHANGED <<files, out, err>>

Frame(op) == [comp |-> op.comp, tpl |-> op.tpl, tgt |-> op.tgt, src |-> op.src, out |-> op.out,
              dbg |-> op.dbg, prot |-> op.prot, bad |-> op.bad, sec |-> {}, id |-> Len(runs) + Len(stack)]

Start(op) ==
  LET opened == op.bad \notin StartFails \ {"syntax"}
  IN /\ debugs' = IF op.dbg # "" /\ opened THEN With(debugs, op.dbg, << >>) ELSE debugs
     /\ IF opened /\ op.bad # "syntax"
        THEN /\ stack' = Append(stack, Frame(op))
             /\ UNCHANGED <<files, out, err, runs>>
        ELSE Fail(Append(stack, Frame(op)), CodeOf(op.bad))

PrintTo(op) ==
  /\ IF stack = << >>
     THEN /\ out' = out \o Text(op.args) \o <<NL>>
          /\ UNCHANGED stack
     ELSE /\ stack' = [stack EXCEPT ![Len(stack)].sec = With(@, op.sec, Sec(@, op.sec) \o Text(op.args))]
          /\ UNCHANGED out
  /\ UNCHANGED <<files, debugs, err, runs>>

DebugTo(op) ==
  IF Top.dbg = "" /\ Full = "stderr"
  THEN /\ Fail(stack, ENOSPC)
       /\ UNCHANGED debugs
  ELSE /\ IF Top.dbg = ""
          THEN /\ err' = err \o Text(op.args) \o <<NL>>
               /\ UNCHANGED debugs
          ELSE /\ debugs' = With(debugs, Top.dbg, Sec(debugs, Top.dbg) \o Text(op.args) \o <<NL>>)
               /\ UNCHANGED err
       /\ UNCHANGED <<stack, files, out, runs>>

End(op) ==
  IF Top.bad \in EndFails
  THEN /\ Fail(stack, CodeOf(Top.bad))
       /\ UNCHANGED debugs
  ELSE LET t == OutputOf(Top)
       IN /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
          /\ runs' = Append(runs, 0)
          /\ files' = IF IsFile(Top.out) THEN With(files, Top.out, t) ELSE files
          /\ out' = IF Top.out = "stdout" THEN out \o t \o <<NL>> ELSE out
          /\ err' = IF Top.out = "stderr" THEN err \o t ELSE err
          /\ UNCHANGED debugs

Raise(op) == Fail(stack, AnyError) /\ UNCHANGED debugs

Step(op) == IF op.op = "start" THEN Start(op)
            ELSE IF op.op = "print" THEN PrintTo(op)
            ELSE IF op.op = "debug" THEN DebugTo(op)
            ELSE IF op.op = "end" THEN End(op)
            ELSE Raise(op)

\* ---- model: all small histories
A == <<97>>
B == <<123, 83, 49, 125>>
S1 == <<83, 49>>
Templates == {<<123>> \o CodeSection \o <<125, 59, 123, 83, 49, 125>>, <<120, 123, 83, 49, 125>>}
TargetName == <<116, 47, 97, 46, 98, 46, 99>>
SrcName == <<115>>
Depth == Len(stack)
Using(d) == \E i \in DOMAIN stack : stack[i].dbg = d
Ops ==
  (IF Depth + Len(runs) >= MaxRuns \/ Depth >= 2 THEN {} ELSE
   {[op |-> "start", comp |-> x, tpl |-> tp, tgt |-> TargetName, src |-> SrcName, out |-> o, dbg |-> d, bad |-> b, prot |-> p] :
     x \in IF Depth = 0 THEN {1} ELSE {1, 2}, tp \in IF Depth = 0 THEN Templates ELSE {<<123>> \o CodeSection \o <<125>>},
     o \in {"o1", "stdout"}, d \in IF Depth = 1 /\ ~Using("d1") THEN {"", "d1"} ELSE {""},
     b \in IF Depth = 0 THEN {"", "output"} ELSE {"", "syntax"}, p \in IF Depth = 0 THEN {TRUE} ELSE BOOLEAN})
  \cup (IF Depth = 0 THEN {}
        ELSE {[op |-> "print", sec |-> s, args |-> <<a>>] : s \in {CodeSection, S1}, a \in {A, B}}
             \cup {[op |-> "debug", args |-> <<A>>], [op |-> "end"], [op |-> "fail"]})
  \cup (IF Depth = 0 /\ hist # << >> /\ hist[Len(hist)].op # "print" THEN {[op |-> "print", sec |-> CodeSection, args |-> <<A>>]} ELSE {})

AsSet(list) == {[n |-> list[i].n, t |-> list[i].t] : i \in DOMAIN list}
Report(what, got, want) ==
  PrintT("MISMATCH " \o ToJson([case |-> c.case - 1, step |-> c.step, what |-> what, got |-> got, want |-> want]))

Init == /\ Empty
        /\ hist = << >>
        /\ c = [case |-> 1, step |-> 0, bad |-> FALSE]

ModelNext ==
  /\ Mode = "model"
  /\ Len(hist) < MaxSteps
  /\ \E op \in Ops : Step(op) /\ hist' = Append(hist, op)
  /\ UNCHANGED c

\* the observation after a step: the files as they are then
Compare(o) ==
  IF files' # AsSet(o.files) THEN Report("files", o.files, files')
  ELSE IF Len(stack') # o.depth THEN Report("runs under way", o.depth, Len(stack'))
  ELSE FALSE
\* the observations at the end of a case
SameOutcome(want, got) == IF want = AnyError THEN got # 0 ELSE got = want
CompareEnd(o) ==
  IF Len(runs) # Len(o.runs) \/ \E i \in DOMAIN runs : ~SameOutcome(runs[i], o.runs[i]) THEN Report("outcome of the runs", o.runs, runs)
  ELSE IF Full # "stdout" /\ out # o.out THEN Report("standard output", o.out, out)
  ELSE IF Full # "stderr" /\ err # o.err THEN Report("standard error", o.err, err)
  ELSE IF debugs # AsSet(o.debugs) THEN Report("debug output", o.debugs, debugs)
  ELSE IF ~o.restored THEN Report("print, print_section or debug not restored", FALSE, TRUE)
  ELSE FALSE

CheckStep ==
  /\ Mode = "check"
  /\ c.case <= Len(Cases)
  /\ c.step < Len(Case.ops)
  /\ IF c.step < Len(Case.obs) \/ c.bad THEN TRUE ELSE Report("stopped after step", c.step, Len(Case.ops))
  /\ Step(Case.ops[c.step + 1])
  /\ hist' = hist
  /\ LET bad == c.step >= Len(Case.obs) \/ (~c.bad /\ Compare(Case.obs[c.step + 1]))
     IN c' = [c EXCEPT !.step = @ + 1, !.bad = @ \/ bad]

CheckEnd ==
  /\ Mode = "check"
  /\ c.case <= Len(Cases)
  /\ c.step = Len(Case.ops)
  /\ IF c.bad THEN TRUE ELSE IF CompareEnd(Case.final) THEN TRUE ELSE TRUE
  /\ PrintT("DONE " \o ToJson([case |-> c.case - 1]))
  /\ stack' = << >> /\ files' = {} /\ debugs' = {} /\ out' = << >> /\ err' = << >> /\ runs' = << >>
  /\ hist' = hist
  /\ c' = [case |-> c.case + 1, step |-> 0, bad |-> FALSE]

Next == ModelNext \/ CheckStep \/ CheckEnd
Spec == Init /\ [][Next]_vars

\* ---- laws
\* Who prints what, read off the history: positions of the operations made
\* directly in the run started at position i, up to its end.
StartOk(op) == op.bad \notin StartFails
RECURSIVE StackAt(_)
\* positions of the starts of the runs under way after k steps
StackAt(k) ==
  IF k = 0 THEN << >>
  ELSE LET s == StackAt(k - 1)
           op == hist[k]
           pop == [i \in 1..(Len(s) - 1) |-> s[i]]
           up == IF op.op = "start" THEN Append(s, k) ELSE s
           P == {i \in DOMAIN up : hist[up[i]].prot}
           last == CHOOSE i \in P : \A j \in P : j <= i
       IN IF op.op = "start" /\ StartOk(op) THEN up
          ELSE IF op.op = "start" \/ op.op = "fail" \/ (op.op = "end" /\ hist[s[Len(s)]].bad \in EndFails)
          THEN SubSeq(up, 1, last - 1)
          ELSE IF op.op = "end" THEN pop
          ELSE s
DepthAt(k) == Len(StackAt(k))
Made(k) == IF hist[k].op = "start" THEN k ELSE LET s == StackAt(k - 1) IN IF s = << >> THEN 0 ELSE s[Len(s)]
Ended(k) == hist[k].op = "end" /\ hist[Made(k)].bad = ""
Printed(i, k, sec) ==
  LET P(j) == hist[j].op = "print" /\ Made(j) = i /\ hist[j].sec = sec
  IN Cat([j \in 1..k |-> IF P(j) THEN Text(hist[j].args) ELSE << >>])
Wrote(k) == LET i == Made(k)
                pr == {hist[j].sec : j \in {x \in 1..k : hist[x].op = "print" /\ Made(x) = i}}
            IN Format(hist[i].tpl, With(With({[n |-> s, t |-> Printed(i, k, s)] : s \in pr},
                                             SourceSection, hist[i].src), TripleSection, Triple(hist[i].tgt)))

\* A file holds what the last run that ended well wrote to it: the template
\* with what this run itself printed.
Isolated ==
  LET E(n) == {k \in DOMAIN hist : Ended(k) /\ hist[Made(k)].out = n}
  IN /\ \A n \in {"o1"} : IF E(n) = {} THEN ~Has(files, n)
                          ELSE LET l == CHOOSE k \in E(n) : \A j \in E(n) : j <= k
                               IN Sec(files, n) = Wrote(l)
     /\ out = Cat([k \in DOMAIN hist |-> IF Ended(k) /\ hist[Made(k)].out = "stdout" THEN Wrote(k) \o <<NL>>
                                         ELSE IF hist[k].op = "print" /\ Made(k) = 0 THEN Text(hist[k].args) \o <<NL>> ELSE << >>])
     /\ Depth = DepthAt(Len(hist))
\* every run started is under way or ended once
Counted == Len(runs) + Len(stack) = Cardinality({k \in DOMAIN hist : hist[k].op = "start"})
\* a run that failed has changed no file: files only change at an end
OnlyEnds == [][files' # files => hist' # hist /\ hist'[Len(hist')].op = "end" /\ Top.bad = "" /\ Len(stack') = Len(stack) - 1]_vars

\* The laws of Format, for all templates of the model over a small alphabet
Letters == {LB, RB, 65, 66, 32}
Strings(n) == UNION {[1..m -> Letters] : m \in 0..n}
SecA == {[n |-> <<65>>, t |-> <<123, 66, 125>>], [n |-> <<32, 66>>, t |-> <<>>]}
KeepA == {[n |-> x.n, t |-> <<LB>> \o x.n \o <<RB>>] : x \in SecA}
FormatLaws ==
  \A T \in Strings(4) :
    /\ (Find(T, LB, 1) = 0 \/ Find(T, RB, 1) = 0) => Format(T, SecA) = T
    \* what follows a closing brace is mapped on its own
    /\ \A U \in Strings(3) : Format(T \o <<RB>> \o U, SecA) = Format(T \o <<RB>>, SecA) \o Format(U, SecA)
    \* sections are not mapped again, and each variable is replaced once
    /\ (\A i, j \in 1..Len(T) : ~(i < j /\ T[i] = LB /\ T[j] = RB /\ IsIdentifier(SubSeq(T, i + 1, j - 1)))) => Format(T, KeepA) = T
    /\ Format(T, {}) = T \/ \E i, j \in 1..Len(T) : T[i] = LB /\ T[j] = RB /\ IsIdentifier(SubSeq(T, i + 1, j - 1))
ASSUME Mode = "model" => FormatLaws

Complete == Len(hist) = MaxSteps \/ Ops = {}
Dump == IF "DUMP" \in DOMAIN IOEnv /\ Depth = 0 /\ Len(hist) > 0 /\ hist[Len(hist)].op # "print"
        THEN PrintT("HISTORY " \o ToJson(hist)) ELSE TRUE
=============================================================================
