----------------------------- MODULE LuaValue -----------------------------
(***************************************************************************)
(* mewa.tostring: what the text of a value says.                           *)
(*                                                                         *)
(* A value is nil, a boolean, a number (named by its digits), a string (a  *)
(* sequence of bytes) or a table (a set of entries with keys that are      *)
(* numbers or strings); a cyclic table holds references, up(n) being the   *)
(* n-th table around it.  Shown(v, d) is the value that the text of v with *)
(* maximum depth d evaluates to: all of v, tables at depth d replaced by   *)
(* "..." ("cut"); depth 0 is no limit.                                     *)
(*                                                                         *)
(* The model builds all small values entry by entry (VARIABLE v) and       *)
(* states the laws of Shown; its states are dumped and shown by the real   *)
(* module.  With Cases, the machine checks one observation after the       *)
(* other: the text evaluates to Shown, equal values have equal texts in    *)
(* whatever order they were built, and layout follows the indent argument. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Functions

CONSTANTS Mode,       \* "model": build values; "check": check observations
          MaxEntries  \* entries of all tables of a value of the model

Nil == [t |-> "nil"]
Cut == [t |-> "cut"]
Bool(b) == [t |-> "bool", b |-> b]
Num(n) == [t |-> "num", n |-> n]
Str(c) == [t |-> "str", c |-> c]
Tab(e) == [t |-> "tab", e |-> e]
Up(n) == [t |-> "up", up |-> n]

\* ---- meaning
RECURSIVE Show(_, _, _)
\* around: the tables around v, innermost first
Show(v, d, around) ==
  IF v.t = "up" THEN LET k == v.up
                     IN Show(around[k], d, SubSeq(around, k + 1, Len(around)))
  ELSE IF v.t # "tab" THEN v
  ELSE IF d = 1 THEN Cut
  ELSE LET dd == IF d = 0 THEN 0 ELSE d - 1
       IN Tab({[k |-> x.k, v |-> Show(x.v, dd, <<v>> \o around)] : x \in v.e})
Shown(v, d) == Show(v, d, << >>)

RECURSIVE Height(_)
Height(v) == IF v.t # "tab" THEN 0
             ELSE 1 + (IF v.e = {} THEN 0 ELSE LET H == {Height(x.v) : x \in v.e} IN CHOOSE h \in H : \A g \in H : g <= h)
RECURSIVE Entries(_)
RECURSIVE SumEntries(_)
SumEntries(E) == IF E = {} THEN 0 ELSE LET x == CHOOSE y \in E : TRUE IN 1 + Entries(x.v) + SumEntries(E \ {x})
Entries(v) == IF v.t # "tab" THEN 0 ELSE SumEntries(v.e)
RECURSIVE HasUp(_)
HasUp(v) == v.t = "up" \/ (v.t = "tab" /\ \E x \in v.e : HasUp(x.v))
RECURSIVE HasCut(_)
HasCut(v) == v.t = "cut" \/ (v.t = "tab" /\ \E x \in v.e : HasCut(x.v))

\* ---- model: all small values
KeySet == {Num("1"), Num("2"), Num("-1"), Num("2.5"), Str(<<97>>), Str(<<101, 110, 100>>), Str(<<>>), Str(<<34, 0>>)}
AtomSet == {Bool(TRUE), Num("7"), Str(<<92, 10>>), Tab({})}

VARIABLES v, c, r
vars == <<v, c, r>>

\* all values that v becomes with one entry put into one of its tables
RECURSIVE Puts(_, _)
Puts(x, lev) ==
  IF x.t # "tab" THEN {}
  ELSE {Tab(x.e \cup {[k |-> k, v |-> a]}) : k \in {q \in KeySet : \A y \in x.e : y.k # q}, a \in AtomSet \cup {Up(n) : n \in 1..lev}}
       \cup UNION {{Tab((x.e \ {y}) \cup {[k |-> y.k, v |-> z]}) : z \in Puts(y.v, lev + 1)} : y \in {q \in x.e : q.v.t = "tab"}}

Build == /\ Mode = "model" /\ Entries(v) < MaxEntries
         /\ v' \in Puts(v, 1)
         /\ UNCHANGED <<c, r>>

\* ---- observations: {id, v, runs: [{d, indent, back, same, lines}]}
Cases == JsonDeserialize(IOEnv.CASES)
RECURSIVE Value(_)
Value(j) == IF j.t = "tab" THEN Tab({[k |-> Value(j.e[i].k), v |-> Value(j.e[i].v)] : i \in 1..Len(j.e)})
            ELSE j

Report(what, run, want) == PrintT("MISMATCH " \o ToJson([case |-> Cases[c].id, run |-> run, what |-> what, detail |-> want]))

NextCase == /\ Mode = "check" /\ r = 0
            /\ v' = Value(Cases[c].v) /\ r' = 1 /\ UNCHANGED c
CheckRun ==
  /\ Mode = "check" /\ r >= 1 /\ r <= Len(Cases[c].runs)
  /\ LET o == Cases[c].runs[r]
         w == TLCEval(Shown(v, o.d))
     IN IF o.back.t = "error" THEN Report("text is no Lua expression", r, "")
        ELSE /\ (IF Value(o.back) = w THEN TRUE ELSE Report("text has another value", r, w))
             /\ (IF o.same THEN TRUE ELSE Report("equal values with different texts", r, ""))
             /\ (IF o.lines = (IF o.indent THEN Entries(w) ELSE 0) THEN TRUE
                 ELSE Report("layout does not follow the indent argument", r, Entries(w)))
  /\ r' = r + 1 /\ UNCHANGED <<v, c>>
EndCase == /\ Mode = "check" /\ r = Len(Cases[c].runs) + 1
           /\ PrintT("DONE " \o ToJson([case |-> Cases[c].id]))
           /\ r' = r + 1 /\ UNCHANGED <<v, c>>

Init == /\ v = (IF Mode = "model" THEN Tab({}) ELSE Nil) /\ r = 0
        /\ c \in (IF Mode = "model" THEN {0} ELSE 1..Len(Cases))
Next == Build \/ NextCase \/ CheckRun \/ EndCase
Spec == Init /\ [][Next]_vars

\* ---- laws
Depths == 1..4
\* showing less of what is shown already is showing less
Coarser == \A d \in Depths : \A e \in d..4 : Shown(Shown(v, e), d) = Shown(v, d)
\* a depth of the height of the value plus one or no limit shows all of it
Complete == ~HasUp(v) => (Shown(v, 0) = v /\ Shown(v, Height(v) + 1) = v)
\* nothing below the depth is shown, and what was cut is marked
Bounded == \A d \in Depths : Height(Shown(v, d)) <= d - 1
Marked == ~HasUp(v) => \A d \in Depths : (Height(v) >= d) = HasCut(Shown(v, d))
Dump == IF Mode = "model" /\ "DUMP" \in DOMAIN IOEnv THEN PrintT("VALUE " \o ToJson(v)) ELSE TRUE
===========================================================================
