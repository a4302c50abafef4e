-------------------------------- MODULE Load --------------------------------
(***************************************************************************)
(* What mewa.compiler accepts as the description of a compiler: a Lua table *)
(* read entry by entry in any order, until an entry is not as declared.     *)
(*                                                                         *)
(* Values are records [t |-> type, s |-> text, c |-> text as bytes, int |-> *)
(* is it an integer, num |-> can it be taken as number, v |-> its value,    *)
(* pre |-> text up to the first blank, post |-> text after it, e |-> entries *)
(* of a table as sequence of [k |-> value, v |-> value] ]. A text of digits *)
(* is taken as integer too.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Mode   \* "model": all small tables, "cases": recorded ones

Cases == IF Mode = "cases" THEN JsonDeserialize(IOEnv.CASES) ELSE [major |-> 0, bases |-> << >>, cases |-> << >>]
Major == Cases.major

VARIABLES table, todo, result, n
vars == <<table, todo, result, n>>

Ran(q) == {q[i] : i \in DOMAIN q}
Entries(x) == Ran(x.e)
IsList(x) == {e.k.v : e \in {f \in Entries(x) : f.k.int}} = 1..Len(x.e)
Find(x, key) == {e \in Entries(x) : e.k.t = "string" /\ e.k.s = key}
Err(code, arg) == [code |-> code, arg |-> arg]
BadKey == 581
BadValue == 582

---- \* versions: MAJOR.MINOR and anything after another dot, numbers up to 100, a minor under 100
Digit(b) == b \in 48..57
RECURSIVE Number(_, _)
Number(c, i) == IF i <= Len(c) /\ Digit(c[i]) THEN Number(c, i + 1) ELSE i - 1      \* position of the last digit
RECURSIVE Value(_, _, _)
Value(c, from, to) == IF from > to THEN 0 ELSE LET p == Value(c, from, to - 1) IN IF p > 100 THEN p ELSE 10 * p + (c[to] - 48)
Version(c) ==
  LET a == Number(c, 1)
      dot == a + 1
      b == Number(c, dot + 1)
      major == Value(c, 1, a)
      minor == Value(c, dot + 1, b)
      ok == /\ dot <= Len(c) /\ c[dot] = 46 /\ (b = Len(c) \/ c[b + 1] = 46)
            /\ major <= 100 /\ minor < 100 /\ major + minor > 0
  IN IF ok THEN [ok |-> TRUE, major |-> major, minor |-> minor] ELSE [ok |-> FALSE, major |-> 0, minor |-> 0]

VersionDefects(x) ==
  IF x.t # "string" THEN {Err(447, "not a string")}
  ELSE IF ~Version(x.c).ok THEN {Err(447, x.s)}
  ELSE IF Version(x.c).major > Major THEN {Err(449, x.s)} ELSE {}

---- \* the fields
Where(name) == "table '" \o name \o "'"
\* list of texts; numbers are taken as text
Texts(x, name) ==
  IF x.t # "table" THEN {Err(BadValue, Where(name))}
  ELSE UNION {(IF e.k.int THEN {} ELSE {Err(BadKey, Where(name))}) \cup (IF e.v.t \in {"string", "number"} THEN {} ELSE {Err(BadValue, Where(name))}) : e \in Entries(x)}
\* table of positive integers
Packed(x, name) == UNION {(IF e.k.num /\ e.k.v > 0 THEN {} ELSE {Err(BadKey, Where(name))}) \cup (IF e.v.num /\ e.v.v > 0 THEN {} ELSE {Err(BadValue, Where(name))}) : e \in Entries(x)}
Comments(x, name) ==
  (IF IsList(x) THEN {} ELSE {Err(BadKey, Where(name))})
  \cup UNION {IF e.v.t = "string" THEN {}
              ELSE IF e.v.t # "table" THEN {Err(BadValue, Where(name))}
              ELSE LET d == Texts(e.v, name) IN IF d # {} THEN d ELSE IF Len(e.v.e) \in 1..2 THEN {} ELSE {Err(BadValue, Where(name))} : e \in Entries(x)}
Select(x) == IF x.num /\ x.int /\ x.v >= 0 THEN {} ELSE {Err(BadValue, x.s)}
Tokens(x, name) ==
  (IF IsList(x) THEN {} ELSE {Err(BadKey, Where(name))})
  \cup UNION {LET d == Texts(e.v, name)
              IN IF d # {} THEN d
                 ELSE IF Len(e.v.e) \notin 2..3 THEN {Err(BadValue, Where(name))}
                 ELSE IF Len(e.v.e) = 3 THEN UNION {Select(f.v) : f \in {g \in Entries(e.v) : g.k.v = 3}} ELSE {} : e \in Entries(x)}
Indents(x, name) ==
  LET d == UNION {(IF e.k.int THEN {} ELSE {Err(BadKey, Where(name))}) \cup (IF e.v.int /\ e.v.t = "number" THEN {} ELSE {Err(BadValue, Where(name))}) : e \in Entries(x)}
  IN IF d # {} THEN d ELSE IF Len(x.e) = 2 THEN {} ELSE {Err(BadValue, Where(name))}
LexerField(k, x) ==
  LET name == "lexer/" \o k
  IN IF x.t # "table" THEN {Err(BadValue, Where(name))}
     ELSE CASE k = "comment" -> Comments(x, name)
            [] k = "token" -> Tokens(x, name)
            [] k \in {"keyword", "bad", "ignore"} -> Texts(x, name)
            [] k = "indentl" -> Indents(x, name)
            [] OTHER -> {}
LexerDefects(x) == UNION {IF e.k.t = "string" THEN LexerField(e.k.s, e.v) ELSE {Err(BadKey, Where("lexer"))} : e \in Entries(x)}
CallKey(key) == Where("call[]") \o ", key '" \o key \o "'"
CallField(e) ==
  IF e.k.t # "string" THEN {Err(BadKey, Where("call[]"))}
  ELSE CASE e.k.s = "name" -> IF e.v.t = "string" THEN {} ELSE {Err(BadValue, CallKey("name"))}
         [] e.k.s = "proc" -> IF e.v.t = "function" THEN {} ELSE {Err(BadValue, CallKey("proc"))}
         [] e.k.s = "obj" -> {}
         [] OTHER -> {Err(BadKey, CallKey(e.k.s))}
Call(x) ==
  IF x.t # "table" THEN {Err(BadValue, Where("call"))}
  ELSE LET d == UNION {CallField(e) : e \in Entries(x)}
           name == Find(x, "name")
           pre == IF name = {} THEN "" ELSE (CHOOSE e \in name : TRUE).v.pre
           post == IF name = {} THEN "" ELSE (CHOOSE e \in name : TRUE).v.post
       IN IF d # {} THEN d
          ELSE IF name = {} \/ Find(x, "proc") = {} THEN {Err(583, pre)}
          ELSE IF post # "" /\ Find(x, "obj") = {} THEN {Err(584, post)} ELSE {}
CallDefects(x) == (IF IsList(x) THEN {} ELSE {Err(BadKey, Where("call"))}) \cup UNION {Call(e.v) : e \in Entries(x)}

Top(k) == "automaton definition '" \o k \o "'"
\* the defects of an entry of the description
Defects(e) ==
  IF e.k.t # "string" THEN {Err(BadKey, "automaton definition")}
  ELSE LET k == e.k.s
       IN CASE k = "mewa" -> VersionDefects(e.v)
            [] k \in {"language", "typesystem", "cmdline"} -> IF e.v.t = "string" THEN {} ELSE {Err(BadValue, Top(k))}
            [] k \in {"lexer", "nonterminal", "action", "gto", "call"} ->
                 IF e.v.t # "table" THEN {Err(BadValue, Top(k))}
                 ELSE CASE k = "lexer" -> LexerDefects(e.v)
                        [] k = "nonterminal" -> Texts(e.v, k)
                        [] k = "call" -> CallDefects(e.v)
                        [] OTHER -> Packed(e.v, k)
            [] OTHER -> {}
\* what a description may be refused with, {} if it is accepted
Refusals(t) ==
  LET d == UNION {Defects(e) : e \in Entries(t)}
  IN IF d # {} THEN d ELSE IF Find(t, "mewa") = {} THEN {Err(448, "")} ELSE {}

\* ---- what a description means: the parts that make the compiler
Comment(x) == IF x.t = "string" THEN [open |-> x.s, close |-> ""]
              ELSE [open |-> (CHOOSE e \in Entries(x) : e.k.v = 1).v.s, close |-> IF Len(x.e) = 1 THEN "" ELSE (CHOOSE e \in Entries(x) : e.k.v = 2).v.s]
LexerFields == {"comment", "token", "keyword", "bad", "ignore", "indentl"}
Plain(x) == {<<e.k.s, e.k.v, e.v.s>> : e \in Entries(x)}
Meaning(t) ==
  LET part(k) == UNION {Entries(e.v) : e \in Find(t, k)}
      lex(k) == UNION {Entries(e.v) : e \in {f \in part("lexer") : f.k.s = k}}
  IN [comment |-> {<<e.k.v, Comment(e.v)>> : e \in lex("comment")},
      token |-> {<<e.k.v, Plain(e.v)>> : e \in lex("token")},
      lists |-> [k \in {"keyword", "bad", "ignore", "indentl"} |-> {<<e.k.v, e.v.s>> : e \in lex(k)}],
      tables |-> [k \in {"nonterminal", "action", "gto"} |-> {<<e.k.v, e.v.s>> : e \in part(k)}],
      call |-> part("call")]

---- \* reading: entries in any order
Node(t, s, v) == [t |-> t, s |-> s, c |-> << >>, int |-> t = "number", num |-> t = "number", v |-> v, pre |-> s, post |-> "", e |-> << >>]
Str(s, c) == [Node("string", s, 0) EXCEPT !.c = c]
Num(v) == Node("number", ToString(v), v)
Tab(es) == [Node("table", "", 0) EXCEPT !.e = es]
Ent(k, v) == [k |-> k, v |-> v]
S(s) == Str(s, << >>)
List(q) == Tab([i \in DOMAIN q |-> Ent(Num(i), q[i])])
True == Node("boolean", "true", 0)
Fun == Node("function", "f", 0)
CallT(nm, post, proc, obj) ==
  Tab((IF nm = "" THEN << >> ELSE <<Ent(S("name"), [S(nm) EXCEPT !.post = post])>>) \o (IF proc THEN <<Ent(S("proc"), Fun)>> ELSE << >>) \o (IF obj THEN <<Ent(S("obj"), True)>> ELSE << >>))
ModelCalls == {List(<<>>), List(<<CallT("f", "", TRUE, FALSE), CallT("g", "a", TRUE, TRUE)>>), List(<<CallT("g", "a", TRUE, FALSE)>>), List(<<CallT("f", "", FALSE, FALSE), True>>),
               Tab(<<Ent(Num(2), CallT("f", "", TRUE, FALSE))>>), List(<<Tab(<<Ent(S("x"), True)>>)>>), List(<<CallT("", "", TRUE, TRUE)>>)}
ModelLexers == {Tab(<<>>), Tab(<<Ent(S("token"), List(<<List(<<S("ID"), S("[a-z]+")>>), List(<<S("STR"), S("(x)"), Num(1)>>)>>))>>),
                Tab(<<Ent(S("token"), List(<<List(<<S("ID")>>), True>>)), Ent(S("keyword"), List(<<S("a"), True>>))>>),
                Tab(<<Ent(S("comment"), List(<<S("#"), List(<<S("a"), S("b")>>)>>)), Ent(S("x"), Tab(<<>>))>>), Tab(<<Ent(S("comment"), List(<<True, List(<<>>)>>)), Ent(S("x"), True)>>),
                Tab(<<Ent(S("indentl"), List(<<Num(2), Num(4)>>)), Ent(S("token"), List(<<List(<<S("STR"), S("x"), Num(-1)>>)>>))>>), Tab(<<Ent(S("indentl"), List(<<Num(2)>>)), Ent(Num(1), True)>>)}
ModelVersions == {Str("0.1", <<48, 46, 49>>), Str("0.1.x", <<48, 46, 49, 46, 120>>), Str("1.0", <<49, 46, 48>>), Str("x", <<120>>), Str("0.0", <<48, 46, 48>>), Str("0.100", <<48, 46, 49, 48, 48>>), True}
ModelTables == {Tab(<<Ent(Num(1024), Num(7)), Ent(Num(1025), Num(7))>>), Tab(<<Ent(Num(0), Num(7)), Ent(Num(3), Num(0))>>)}
Opt(k, vals) == {<< >>} \cup {<<Ent(S(k), v)>> : v \in vals \cup {True}}
Small == {Tab(a \o b \o x \o d \o y) : a \in Opt("mewa", ModelVersions), b \in Opt("lexer", ModelLexers), x \in Opt("call", ModelCalls), d \in Opt("action", ModelTables), y \in Opt("language", {S("l")}) \cup {<<Ent(S("other"), True)>>, <<Ent(True, True)>>}}

None == Err(0, "")
Init == /\ IF Mode = "model" THEN table \in Small ELSE table = Tab(<< >>)
        /\ todo = DOMAIN table.e /\ result = None /\ n = 1
Read == /\ Mode = "model" /\ result = None /\ todo # {}
        /\ \E i \in todo : LET d == Defects(table.e[i])
                           IN IF d = {} THEN todo' = todo \ {i} /\ result' = None ELSE todo' = todo /\ result' \in d
        /\ UNCHANGED <<table, n>>
End == /\ Mode = "model" /\ result = None /\ todo = {}
       /\ result' = (IF Find(table, "mewa") = {} THEN Err(448, "") ELSE Err(1, "accepted"))
       /\ UNCHANGED <<table, todo, n>>
\* reading in any order ends in one of the refusals, or accepts if there are none
Order == result # None => (IF Refusals(table) = {} THEN result = Err(1, "accepted") ELSE result \in Refusals(table))
\* entries not known, and the order, have no meaning
Meanings == LET t == table IN Refusals(t) = {} => /\ Meaning(t) = Meaning(Tab(t.e \o <<Ent(S("zzz"), Fun)>>))
                                                  /\ Refusals(Tab(t.e \o <<Ent(S("zzz"), Fun)>>)) = {}
\* a version is refused as not known or too new, or accepted, and the numbers are those read
Laws == \A a \in 0..3, b \in 0..3 : LET c == <<48 + a, 46, 48 + b>> IN Version(c) = (IF a + b = 0 THEN [ok |-> FALSE, major |-> 0, minor |-> 0] ELSE [ok |-> TRUE, major |-> a, minor |-> b])

---- \* conformance
Base(k) == Cases.bases[k]
Full(case) ==   \* entries as in the base are recorded as "same"
  Tab([i \in DOMAIN case.table.e |-> LET e == case.table.e[i]
                                     IN IF e.v.t = "same" THEN Ent(e.k, (CHOOSE f \in Find(Base(case.base).table, e.k.s) : TRUE).v) ELSE e])
Verdict(case) ==
  LET t == TLCEval(Full(case))
      r == TLCEval(Refusals(t))
      touched == {e.k.s : e \in {f \in Ran(case.table.e) : f.v.t # "same"}}
      same == r = {} /\ (IF touched \cap {"lexer", "nonterminal", "action", "gto", "call"} = {} /\ Len(case.table.e) >= Len(Base(case.base).table.e) THEN TRUE ELSE Meaning(t) = Meaning(Base(case.base).table))
  IN [refused |-> r # {}, same |-> same,
      fault |-> IF r = {} THEN
                   IF case.code # 0 THEN "refused and is a description as declared"
                   ELSE IF same /\ case.runs # Base(case.base).runs THEN "accepted and compiles differently, with nothing changed that has a meaning" ELSE ""
                ELSE IF case.code = 0 THEN "accepted and has to be refused with one of " \o ToJson(r)
                ELSE IF ~\E d \in r : d.code = case.code /\ d.arg = case.arg THEN "refused with another error than one of " \o ToJson(r) ELSE ""]
CheckCase ==
  /\ Mode = "cases" /\ n <= Len(Cases.cases)
  /\ LET id == Cases.cases[n].id
         f == Verdict(Cases.cases[n])
     IN /\ IF f.fault = "" THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([id |-> id, fault |-> f.fault]))
        /\ PrintT("DONE " \o ToJson([id |-> id, refused |-> f.refused, same |-> f.same]))
  /\ n' = n + 1 /\ UNCHANGED <<table, todo, result>>
Next == Read \/ End \/ CheckCase
Spec == Init /\ [][Next]_vars
=============================================================================
