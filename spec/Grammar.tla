------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* Grammar texts of mewa: which token sequences are a grammar.             *)
(*                                                                         *)
(* The machine reads one token of a grammar text after the other (st is    *)
(* where it stands in the current declaration, d what was declared so far) *)
(* and stops in "syntax" at the first token that cannot follow, or that    *)
(* completes a declaration with a wrong value.  At the end of the text the *)
(* declarations are judged as a whole (WellFormed).                        *)
(*                                                                         *)
(* Mode "model": the tokens are chosen freely from a small alphabet; TLC   *)
(* enumerates all texts that are correct up to their last token, checks    *)
(* the laws below and prints each text with its verdict for the replay.    *)
(* Mode "check": the tokens are those of Cases, and the verdict of the     *)
(* real generator is compared, and of accepted texts the language          *)
(* description (-l), the module of the functions called (-s) or the header *)
(* of the table (-g), with what the machine has read.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Mode, MaxTokens

\* ---- tokens: [k, v, c, b, ok, q, l, cm]: kind, text, text in upper case, bytes of the text, is it a proper pattern,
\* quote of a string, line, and the lines of the comments before it: [n, t]: attribute ("" if none) and text
VARIABLES c, i, st, d, toks
vars == <<c, i, st, d, toks>>

Cases == JsonDeserialize(IOEnv.CASES)
Limit == 2147483640

\* ---- values
IsDigit(b) == b \in 48..57
RECURSIVE ValueOf(_, _)
\* value of a sequence of digits; 1000000000 for all that are not smaller
ValueOf(q, acc) == IF q = << >> THEN acc ELSE IF acc >= 100000000 THEN 1000000000 ELSE ValueOf(Tail(q), acc * 10 + Head(q) - 48)
AllDigits(q) == \A k \in 1..Len(q) : IsDigit(q[k])
SmallNumber(q) == Len(q) > 0 /\ AllDigits(q) /\ ValueOf(q, 0) < 32
Assoc(b) == b = 76 \/ b = 82
\* /L /R /L3 /3L /3
Priority(q) == IF Assoc(q[1]) THEN Len(q) = 1 \/ SmallNumber(Tail(q))
               ELSE IF Assoc(q[Len(q)]) THEN SmallNumber(SubSeq(q, 1, Len(q) - 1))
               ELSE SmallNumber(q)
\* associativity and value; "" if it is no priority
PriorityText(q) == IF Assoc(q[1]) THEN (IF q[1] = 76 THEN "L" ELSE "R") \o ToString(ValueOf(Tail(q), 0))
                   ELSE IF Assoc(q[Len(q)]) THEN (IF q[Len(q)] = 76 THEN "L" ELSE "R") \o ToString(ValueOf(SubSeq(q, 1, Len(q) - 1), 0))
                   ELSE IF ValueOf(q, 0) = 0 THEN "" ELSE ToString(ValueOf(q, 0))
\* numbers with up to 9 digits are in range, longer ones are not generated as select index
Commands == [LANGUAGE |-> {1}, TYPESYSTEM |-> {1}, CMDLINE |-> {1}, IGNORE |-> {1}, BAD |-> {1}, COMMENT |-> {1, 2}, INDENTL |-> {4}]

\* ---- declarations
NoDecl == [lexemes |-> << >>, keywords |-> {}, prods |-> << >>, indent |-> << >>,
           name |-> "", args |-> << >>, pat |-> TRUE, reserved |-> FALSE,
           \* what is described: settings, rules of the lexer, attributes and line of the current declaration, its parts
           set |-> [LANGUAGE |-> "", TYPESYSTEM |-> "", CMDLINE |-> ""],
           mute |-> FALSE, \* a keyword that never occurs: empty or starting with a control character
           rules |-> << >>, bad |-> << >>, at |-> << >>, line |-> 0, pattern |-> "", sel |-> 0, prio |-> ""]

\* ---- attributes in comments
\* a line without attribute belongs to the one before, and to nothing if there is none
RECURSIVE Attributes(_, _)
Attributes(lines, acc) ==
  IF lines = << >> THEN acc
  ELSE LET x == Head(lines)
       IN Attributes(Tail(lines), IF x.n # "" THEN Append(acc, [n |-> x.n, c |-> <<x.t>>])
                                  ELSE IF acc = << >> THEN acc
                                  ELSE [acc EXCEPT ![Len(acc)].c = Append(@, x.t)])
Reserved == {"op", "name", "pattern", "select", "open", "close", "nl", "tabsize", "priority", "left", "right", "scope", "call", "line"}

\* ---- rules as described
Rule(op, D) == [op |-> op, name |-> "", pattern |-> "", select |-> 0, open |-> "", close |-> "", nl |-> "", tabsize |-> 0,
                left |-> "", right |-> << >>, priority |-> "", scope |-> "", call |-> "", line |-> D.line, at |-> D.at]
Nts(D) == {D.prods[k].l : k \in 1..Len(D.prods)}
Used(D) == UNION {{x.v : x \in {D.prods[k].r[j] : j \in 1..Len(D.prods[k].r)}} : k \in 1..Len(D.prods)}
UsedNames(D) == UNION {{x.v : x \in {y \in {D.prods[k].r[j] : j \in 1..Len(D.prods[k].r)} : y.k = "id"}} : k \in 1..Len(D.prods)}
SetOf(q) == {q[k] : k \in 1..Len(q)}
Lexemes(D) == SetOf(D.lexemes) \cup SetOf(D.indent)

\* productions that differ in the priority only are a conflict, but no duplicates
Productions(D) == [k \in 1..Len(D.prods) |-> [l |-> D.prods[k].l, p |-> D.prods[k].prio, r |-> D.prods[k].r]]
Distinct(q) == \A a, b \in 1..Len(q) : a # b => q[a] # q[b]
\* the reasons for which a text of proper declarations is no grammar
Faults(D) ==
  LET N == Nts(D)
      start == D.prods[1].l
  IN IF D.prods = << >> THEN {"empty"}
     ELSE (IF D.mute THEN {"keyword"} ELSE {})
          \cup (IF UsedNames(D) \subseteq N \cup Lexemes(D) THEN {} ELSE {"unresolved"})
          \cup (IF N \cap Lexemes(D) = {} /\ N \cap D.keywords = {} /\ D.keywords \cap Lexemes(D) = {} THEN {} ELSE {"ambiguous"})
          \cup (IF Distinct(D.indent) /\ SetOf(D.indent) \cap SetOf(D.lexemes) = {} THEN {} ELSE {"indent"})
          \cup (IF N \ {start} \subseteq UsedNames(D) THEN {} ELSE {"unreachable"})
          \cup (IF start \notin UsedNames(D) /\ \A k \in 2..Len(D.prods) : D.prods[k].l # start THEN {} ELSE {"start"})
          \cup (IF Distinct(Productions(D)) THEN {} ELSE {"duplicate"})
WellFormed(D) == Faults(D) = {}

\* ---- the machine: st after token t, or "syntax"
NewProd(D) == [D EXCEPT !.prods = Append(@, [l |-> D.name, r |-> << >>, prio |-> D.prio, scope |-> "", fn |-> "", arg |-> "",
                                             line |-> D.line, at |-> D.at])]
Last(D) == D.prods[Len(D.prods)]
AddElement(D, t) == [D EXCEPT !.prods[Len(D.prods)].r = Append(@, [k |-> t.k, v |-> t.v]),
                              !.keywords = IF t.k = "str" THEN @ \cup {t.v} ELSE @,
                              !.mute = @ \/ (t.k = "str" /\ (t.v = "" \/ (Len(t.b) > 0 /\ t.b[1] < 32)))]
AddArg(D, text) == [D EXCEPT !.prods[Len(D.prods)].arg = @ \o text]
\* the text of a value: strings keep their quotes
Literal(t) == IF t.k = "str" THEN t.q \o t.v \o t.q ELSE t.v
\* the same as an argument, where double quotes are preferred
Argument(t) == IF t.k = "str" /\ ~t.dq THEN "\"" \o t.v \o "\"" ELSE Literal(t)
Begin(D, t) == [D EXCEPT !.at = Attributes(t.cm, << >>), !.line = t.l]
R(s, D) == [st |-> s, d |-> D]
Stop == R("syntax", d)

AddRule(D, r) == [D EXCEPT !.rules = Append(@, r)]
EndCommand(D) ==
  LET n == Len(D.args)
      name == D.name
      arg(k) == D.args[k].v
  IN IF name \notin DOMAIN Commands THEN Stop
     ELSE IF n \notin Commands[name] THEN Stop
     ELSE IF name = "IGNORE" THEN IF D.args[1].ok THEN R("init", AddRule(D, [Rule("IGNORE", D) EXCEPT !.pattern = arg(1)])) ELSE Stop
     ELSE IF name = "COMMENT"
     THEN IF \E k \in 1..n : arg(k) = "" THEN Stop
          ELSE R("init", AddRule(D, [Rule("COMMENT", D) EXCEPT !.open = arg(1), !.close = IF n = 2 THEN arg(2) ELSE ""]))
     ELSE IF name = "BAD" THEN R("init", [D EXCEPT !.bad = <<[Rule("BAD", D) EXCEPT !.name = arg(1)]>>])
     ELSE IF name = "INDENTL"
     THEN IF D.indent # << >> \/ ~AllDigits(D.args[4].b) \/ D.args[4].b = << >> THEN Stop
          ELSE R("init", AddRule([D EXCEPT !.indent = <<arg(1), arg(2), arg(3)>>],
                                 [Rule("INDENTL", D) EXCEPT !.open = arg(1), !.close = arg(2), !.nl = arg(3), !.tabsize = ValueOf(D.args[4].b, 0)]))
     ELSE R("init", [D EXCEPT !.set[name] = arg(1)])

Step0(t) ==
  CASE st = "init" /\ t.k = "id" -> R("attr", [Begin(d, t) EXCEPT !.name = t.v, !.prio = "", !.sel = 0])
    [] st = "init" /\ t.k = "%" -> R("cmd", Begin(d, t))
    \* commands
    [] st = "cmd" /\ t.k = "id" -> R("cmdarg", [d EXCEPT !.name = t.c, !.args = << >>])
    [] st = "cmdarg" /\ t.k \in {"id", "num", "str"} -> R("cmdarg", [d EXCEPT !.args = Append(@, [v |-> t.v, ok |-> t.ok, b |-> t.b])])
    [] st = "cmdarg" /\ t.k = ";" -> EndCommand(d)
    \* lexemes
    [] st = "attr" /\ t.k = ":" -> R("pattern", d)
    [] st = "pattern" /\ t.k = "str" -> R("select", [d EXCEPT !.pat = t.ok, !.pattern = t.v])
    [] st = "select" /\ t.k = "num" -> IF Len(t.b) > 9 THEN Stop ELSE R("lexend", [d EXCEPT !.sel = ValueOf(t.b, 0)])
    [] st \in {"select", "lexend"} /\ t.k = ";" ->
         IF d.pat THEN R("init", AddRule([d EXCEPT !.lexemes = Append(@, d.name)],
                                         [Rule("TOKEN", d) EXCEPT !.name = d.name, !.pattern = d.pattern, !.select = d.sel])) ELSE Stop
    \* productions
    [] st = "attr" /\ t.k = "/" -> R("prio", d)
    [] st = "prio" /\ t.k \in {"id", "num", "prio"} -> IF Priority(t.b) THEN R("assign", [d EXCEPT !.prio = PriorityText(t.b)]) ELSE Stop
    [] st \in {"attr", "assign"} /\ t.k \in {"=", "->"} -> R("first", NewProd(d))
    [] st \in {"first", "body"} /\ t.k \in {"id", "str"} -> R("body", AddElement(d, t))
    [] st = "first" /\ t.k = "eps" -> R("nobody", d)
    [] st \in {"first", "body", "nobody"} /\ t.k = "(" -> R("call", d)
    [] st \in {"first", "body", "nobody", "called"} /\ t.k = "|" -> R("first", NewProd(Begin(d, t)))
    [] st \in {"first", "body", "nobody", "called"} /\ t.k = ";" -> R("init", d)
    \* calls
    [] st = "call" /\ t.k \in {">>", "{}"} -> IF Last(d).scope # "" THEN Stop ELSE R("call", [d EXCEPT !.prods[Len(d.prods)].scope = t.k])
    [] st = "call" /\ t.k \in {"id", "call"} -> R("callarg", [d EXCEPT !.prods[Len(d.prods)].fn = t.v])
    [] st = "callarg" /\ t.k \in {"id", "call", "num", "str"} -> R("callend", AddArg(d, Argument(t)))
    [] st = "callarg" /\ t.k = "{" -> R("member", AddArg(d, "{"))
    [] st = "member" /\ t.k = "id" -> R("membereq", AddArg(d, t.v))
    [] st = "membereq" /\ t.k = "=" -> R("membervalue", AddArg(d, "="))
    [] st = "membervalue" /\ t.k \in {"id", "num", "str"} -> R("memberend", AddArg(d, Literal(t)))
    [] st = "memberend" /\ t.k = "," -> R("member", AddArg(d, ","))
    [] st = "memberend" /\ t.k = "}" -> R("callend", AddArg(d, "}"))
    [] st \in {"call", "callarg", "callend"} /\ t.k = ")" -> R("called", d)
    [] OTHER -> Stop
Step(t) == LET r == Step0(t)
           IN IF \E k \in 1..Len(t.cm) : t.cm[k].n \in Reserved THEN [r EXCEPT !.d.reserved = TRUE] ELSE r

\* ---- the description: rules of one kind in the order of the text
ProdRule(p) == [Rule("PROD", [line |-> p.line, at |-> p.at]) EXCEPT
                  !.left = p.l, !.right = [k \in 1..Len(p.r) |-> [k |-> IF p.r[k].k = "id" THEN "name" ELSE "symbol", v |-> p.r[k].v]],
                  !.priority = p.prio, !.scope = p.scope, !.call = IF p.arg = "" THEN p.fn ELSE p.fn \o " " \o p.arg]
RulesOf(D) == D.rules \o D.bad \o [k \in 1..Len(D.prods) |-> ProdRule(D.prods[k])]
Kinds == {{"TOKEN", "IGNORE"}, {"COMMENT1"}, {"COMMENT2"}, {"BAD"}, {"INDENTL"}, {"PROD"}}
KindOf(r) == IF r.op = "COMMENT" THEN IF r.close = "" THEN "COMMENT1" ELSE "COMMENT2" ELSE r.op
\* the order of the attributes does not count
OfKind(rules, K) == LET test(r) == KindOf(r) \in K
                        q == SelectSeq(rules, test)
                    IN [k \in 1..Len(q) |-> [q[k] EXCEPT !.at = {q[k].at[j] : j \in 1..Len(q[k].at)}]]
\* what is wrong with an observed description
Differences(obs, D) ==
  LET rules == RulesOf(D)
  IN {n \in {"LANGUAGE", "TYPESYSTEM", "CMDLINE"} : obs.set[n] # D.set[n]}
     \cup {ToString(K) : K \in {K \in Kinds : OfKind(obs.rules, K) # OfKind(rules, K)}}
     
\* functions called, with TRUE and FALSE where there is a call with and without argument
Functions(D) == {<<D.prods[k].fn, D.prods[k].arg # "">> : k \in {k \in 1..Len(D.prods) : D.prods[k].fn # ""}}
StubDifferences(obs, D) ==
  LET F == Functions(D)
      names == {f[1] : f \in F}
  IN (IF names = {obs.funcs[k].n : k \in 1..Len(obs.funcs)} /\ Cardinality(names) = Len(obs.funcs) THEN {} ELSE {"functions"})
     \cup (IF \A k \in 1..Len(obs.funcs) : <<obs.funcs[k].n, obs.funcs[k].decl>> \in F THEN {} ELSE {"parameters"})

\* ---- model
Tok(k, v, b) == [k |-> k, v |-> v, c |-> v, b |-> b, ok |-> TRUE, q |-> "'", dq |-> FALSE, l |-> 1, cm |-> << >>]
Id(v, b) == Tok("id", v, b)
Str(v) == Tok("str", v, << >>)
P(k) == Tok(k, k, << >>)
Alphabet == {Id("A", <<65>>), Id("L1", <<76, 49>>), Str("a"), Str("A")} \cup {P(k) : k \in {"=", ";", ":", "|", "(", ")", ">>", "/", "eps", "{"}}
Choose == /\ Mode = "model" /\ st # "syntax" /\ i < MaxTokens
          /\ \E t \in Alphabet :
               LET r == Step(t) IN /\ st' = r.st /\ d' = r.d /\ toks' = Append(toks, t)
          /\ i' = i + 1 /\ UNCHANGED c

Verdict == IF st = "syntax" THEN "syntax" ELSE IF st # "init" THEN "eof" ELSE IF WellFormed(d) THEN "ok" ELSE "fault"
Dump == IF Mode = "model" THEN PrintT("TEXT " \o ToJson([toks |-> [k \in 1..Len(toks) |-> <<toks[k].k, toks[k].v>>], v |-> Verdict])) ELSE TRUE

\* ---- check
Toks == Cases[c].toks
Read == /\ Mode = "check" /\ st \notin {"syntax", "done"} /\ i < Len(Toks)
        /\ LET r == Step(Toks[i + 1]) IN st' = r.st /\ d' = r.d
        /\ i' = i + 1 /\ UNCHANGED <<c, toks>>
Report(what, diff) == PrintT("MISMATCH " \o ToJson([case |-> Cases[c].id, what |-> what, verdict |-> Verdict, diff |-> diff,
                                                     line |-> IF i > 0 THEN Toks[i].l ELSE 0]))
CaseFaults == IF Verdict = "fault" THEN Faults(d) ELSE {}
Judge == /\ Mode = "check" /\ st # "done" /\ (st = "syntax" \/ i = Len(Toks))
         /\ LET o == Cases[c].obs \* [verdict: "ok" | "error", line, mode, desc]
                ok == Verdict = "ok" /\ ~(o.mode = "l" /\ d.reserved)
            IN IF o.verdict = "ok" /\ ~ok THEN Report("ill-formed grammar accepted", CaseFaults)
               ELSE IF o.verdict = "error" /\ ok THEN Report("well-formed grammar rejected", {})
               ELSE IF Verdict = "syntax" /\ o.line # Toks[i].l THEN Report("error reported with another line", {})
               ELSE IF o.verdict = "error" THEN TRUE
               ELSE IF o.mode = "l" /\ Differences(o.desc, d) # {}
                    THEN Report("other description", [k \in Differences(o.desc, d) |->
                           IF k \in DOMAIN d.set THEN d.set[k] ELSE OfKind(RulesOf(d), CHOOSE K \in Kinds : ToString(K) = k)])
               ELSE IF o.mode = "l" /\ Len(o.desc.rules) # Len(RulesOf(d)) THEN Report("rules of other kinds", {})
               ELSE IF o.mode = "s" /\ StubDifferences(o.desc, d) # {} THEN Report("other functions", [diff |-> StubDifferences(o.desc, d), expected |-> Functions(d)])
               ELSE IF o.mode = "g" /\ o.desc.set # d.set THEN Report("other table", d.set)
               ELSE TRUE
         /\ PrintT("DONE " \o ToJson([case |-> Cases[c].id, verdict |-> Verdict, faults |-> CaseFaults]))
         /\ st' = "done" /\ UNCHANGED <<c, i, d, toks>>

Init == /\ i = 0 /\ st = "init" /\ d = NoDecl /\ toks = << >>
        /\ c \in (IF Mode = "model" THEN {0} ELSE 1..Len(Cases))
Next == Choose \/ Read \/ Judge
Spec == Init /\ [][Next]_vars

\* ---- laws
\* what is declared is declared for good: later tokens only add
Grows == [][/\ Len(d'.prods) >= Len(d.prods) /\ d.keywords \subseteq d'.keywords
            /\ SubSeq(d'.lexemes, 1, Len(d.lexemes)) = d.lexemes
            /\ SubSeq(d'.rules, 1, Len(d.rules)) = d.rules
            /\ \A k \in 1..Len(d.prods) : /\ d'.prods[k].l = d.prods[k].l
                                          /\ SubSeq(d'.prods[k].r, 1, Len(d.prods[k].r)) = d.prods[k].r
                                          /\ k < Len(d.prods) => d'.prods[k] = d.prods[k]]_vars
\* every name on a right side of a grammar has exactly one meaning
OneMeaning == (st = "init" /\ WellFormed(d)) =>
   \A x \in Used(d) : Cardinality({s \in {"nt", "lexeme", "keyword"} :
        x \in (IF s = "nt" THEN Nts(d) ELSE IF s = "lexeme" THEN Lexemes(d) ELSE d.keywords)}) = 1
\* every declaration of the text is described once: one rule for each lexeme, command and production
Described == Len(RulesOf(d)) = Len(d.lexemes) + Len(d.prods) + Len(d.bad) + Len(SelectSeq(d.rules, LAMBDA r : r.op \notin {"TOKEN", "PROD", "BAD"}))
\* the start symbol derives every nonterminal: each is used in a production of another or itself
AllUsed == (st = "init" /\ WellFormed(d)) => Nts(d) \ UsedNames(d) = {d.prods[1].l}
===========================================================================
