------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* The lexer of a mewa language as a state machine that issues one token   *)
(* per step: white space, comments and ignored patterns are skipped, the   *)
(* longest match wins, keywords win ties, then the first declared pattern. *)
(* With indentation declared it issues the tokens of the off-side rule.    *)
(*                                                                         *)
(* Patterns are trees of regular expressions; they match as ECMAScript     *)
(* defines it (backtracking order, the first success counts), which is not *)
(* always the longest match of the expression.                             *)
(*                                                                         *)
(* The cases (file named by the environment variable CASES) are lexers     *)
(* with sources and the tokens the real compiler saw.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES
  c,     \* case
  n,     \* source of the case
  pos,   \* bytes consumed
  line,  \* line of the next byte
  ind,   \* indentations of the open blocks
  bol,   \* a new-line token was issued for the line of the next token
  out,   \* tokens issued
  st     \* "next", "run", "end", "bad", "any"

vars == <<c, n, pos, line, ind, bol, out, st>>
View == <<c, n, pos, line, ind, bol, Len(out), st>>

X == Cases[c].lexer
Run == Cases[c].runs[n]
Src == Run.src
EOS == Len(Src)
At(i) == Src[i + 1]          \* byte at offset i

---------------------------------------------------------------------------
(* Regular expressions: Ends(r, s) is the sequence of results of matching  *)
(* r at s.e, in the order a backtracking matcher tries them. A result is   *)
(* [e |-> end, gs, ge |-> span of the selected group, -1 if it has none].  *)

InSet(r, i) == (\E x \in 1..Len(r.cs) : r.cs[x] = At(i)) # r.neg
\* number of bytes of the set from i on, at most hi (99 stands for no limit)
RECURSIVE RunLength(_, _, _, _)
RunLength(r, i, hi, m) ==
  IF m < hi /\ i < EOS /\ InSet(r, i)
  THEN IF hi = 100000 /\ i + 16 < EOS /\ \A k \in 1..16 : InSet(r, i + k) THEN RunLength(r, i + 16, hi, m + 16)
       ELSE RunLength(r, i + 1, hi, m + 1)
  ELSE m

RECURSIVE Ends(_, _), SeqEnds(_, _), AltEnds(_, _), RepEnds(_, _, _), FlatSeq(_, _), FlatRep(_, _, _)
Ends(r, s) ==
  IF r.k = "set" THEN IF s.e < EOS /\ InSet(r, s.e) THEN <<[s EXCEPT !.e = s.e + 1]>> ELSE << >>
  ELSE IF r.k = "seq" THEN SeqEnds(r.q, <<s>>)
  ELSE IF r.k = "alt" THEN AltEnds(r.q, s)
  ELSE IF r.k = "rep"
  THEN IF r.r.k = "set"   \* the same as RepEnds, without recursion for each of the results
       THEN LET m == RunLength(r.r, s.e, IF r.hi = 99 THEN 100000 ELSE r.hi, 0)
            IN [k \in 1..(m - r.lo + 1) |-> [s EXCEPT !.e = s.e + (IF r.lazy THEN r.lo + k - 1 ELSE m - k + 1)]]
       ELSE RepEnds(r, 0, s)
  ELSE \* group
    LET q == Ends(r.r, s)
    IN IF r.sel THEN [k \in 1..Len(q) |-> [q[k] EXCEPT !.gs = s.e, !.ge = q[k].e]] ELSE q
FlatSeq(r, q) == FlattenSeq([k \in 1..Len(q) |-> Ends(r, q[k])])
SeqEnds(q, ss) == IF q = << >> \/ ss = << >> THEN ss ELSE SeqEnds(Tail(q), TLCEval(FlatSeq(Head(q), ss)))
AltEnds(q, s) == IF q = << >> THEN << >> ELSE Ends(Head(q), s) \o AltEnds(Tail(q), s)
\* k iterations are done; an iteration that consumes nothing ends the repetition
FlatRep(r, k, q) == IF q = << >> THEN << >> ELSE RepEnds(r, k, Head(q)) \o FlatRep(r, k, Tail(q))
RepEnds(r, k, s) ==
  LET q == TLCEval(Ends(r.r, s))
      inner == IF k < r.lo THEN q ELSE SelectSeq(q, LAMBDA x : x.e > s.e)
      more == IF k < r.hi \/ r.hi = 99 THEN   \* 99 stands for no limit
               FlatRep(r, k + 1, inner) ELSE << >>
  IN IF k < r.lo THEN more ELSE IF r.lazy THEN <<s>> \o more ELSE more \o <<s>>

NoMatch == [e |-> -1, gs |-> -1, ge |-> -1]
Match(r, i) ==
  LET q == SelectSeq(Ends(r, [e |-> i, gs |-> -1, ge |-> -1]), LAMBDA x : x.e > i)
  IN IF q = << >> THEN NoMatch ELSE Head(q)

\* the byte string q occurs at offset i
Occurs(q, i) == i + Len(q) <= EOS /\ \A k \in 1..Len(q) : At(i + k - 1) = q[k]

---------------------------------------------------------------------------
(* Skipping *)
White(i) == At(i) <= 32
RECURSIVE SkipWhite(_)
SkipWhite(i) == IF i < EOS /\ White(i)
                THEN IF i + 16 < EOS /\ \A k \in 1..16 : White(i + k) THEN SkipWhite(i + 16) ELSE SkipWhite(i + 1)
                ELSE i
Newlines(i, j) == Cardinality({k \in i..(j - 1) : At(k) = 10})
RECURSIVE Find(_, _)
Find(q, i) == IF i + Len(q) > EOS THEN -1 ELSE IF Occurs(q, i) THEN i ELSE Find(q, i + 1)

Brackets(i) == {k \in 1..Len(X.brackets) : Occurs(X.brackets[k].open, i)}
Eolns(i) == {k \in 1..Len(X.eolns) : Occurs(X.eolns[k], i)}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* [e |-> end of the comment at i, -1 if there is none, -2 if it is not closed]
CommentEnd(i) ==
  IF Brackets(i) # {}
  THEN LET b == X.brackets[MinOf(Brackets(i))]
           e == Find(b.close, i + Len(b.open))
       IN IF e < 0 THEN -2 ELSE e + Len(b.close)
  ELSE IF Eolns(i) # {}
  THEN LET e == Find(<<10>>, i + Len(X.eolns[MinOf(Eolns(i))])) IN IF e < 0 THEN EOS ELSE e + 1
  ELSE -1

---------------------------------------------------------------------------
(* Matching *)
Keywords(i) == {k \in 1..Len(X.keywords) : Occurs(X.keywords[k], i)}
PatternMatch(i) == TLCEval([k \in 1..Len(X.patterns) |-> Match(X.patterns[k].r, i)])
IgnoreMatch(i) == TLCEval([k \in 1..Len(X.ignores) |-> Match(X.ignores[k], i)])
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
\* what is recognized at i: [kind, k, e, gs, ge]
Best(i) ==
  LET P == PatternMatch(i)
      I == IgnoreMatch(i)
      K == Keywords(i)
      L == {P[k].e : k \in DOMAIN P} \cup {I[k].e : k \in DOMAIN I} \cup {i + Len(X.keywords[k]) : k \in K}
      m == IF L = {} THEN -1 ELSE MaxOf(L)
      BK == {k \in K : i + Len(X.keywords[k]) = m}
      BP == {k \in DOMAIN P : P[k].e = m}
      BI == {k \in DOMAIN I : I[k].e = m}
      R(kind, k, gs, ge) == [kind |-> kind, k |-> k, e |-> m, gs |-> gs, ge |-> ge]
  IN IF m < 0 THEN [kind |-> "none", k |-> 0, e |-> i, gs |-> 0, ge |-> 0]
     ELSE IF BK # {} THEN R("keyword", CHOOSE k \in BK : TRUE, i, m)
     ELSE IF BP # {} /\ BI # {} THEN R("any", 0, 0, 0)        \* not specified which of them wins
     ELSE IF BI # {} THEN R("ignore", 0, 0, 0)
     ELSE LET k == MinOf(BP)
          IN R("pattern", k, IF X.patterns[k].sel THEN P[k].gs ELSE i, IF X.patterns[k].sel THEN P[k].ge ELSE m)

\* indentation of a token at i, -1 if it is not the first thing on its line
RECURSIVE LineStart(_)
LineStart(i) == IF i >= 16 /\ \A k \in 1..16 : White(i - k) /\ At(i - k) # 10 THEN LineStart(i - 16)
                ELSE IF i = 0 \/ At(i - 1) = 10 THEN i ELSE IF White(i - 1) THEN LineStart(i - 1) ELSE -1
Width(i, j) == j - i + (X.tabsize - 1) * Cardinality({k \in i..(j - 1) : At(k) = 9})
Indent(i) == LET s == LineStart(i) IN IF s < 0 THEN -1 ELSE Width(s, i)
Top == IF ind = << >> THEN 0 ELSE ind[Len(ind)]

Token(name, val, ln) == [n |-> name, v |-> val, line |-> ln]

---------------------------------------------------------------------------
Report(what, detail) == PrintT("MISMATCH " \o ToJson([case |-> Cases[c].id, run |-> n, what |-> what, detail |-> detail]))

Init == c \in 1..Len(Cases) /\ n = 0 /\ pos = 0 /\ line = 0 /\ ind = << >> /\ bol = FALSE /\ out = << >> /\ st = "next"

NextRun ==
  /\ st = "next"
  /\ IF n = Len(Cases[c].runs) THEN PrintT("DONE " \o ToJson([case |-> Cases[c].id])) /\ st' = "done" /\ UNCHANGED <<c, n, pos, line, ind, bol, out>>
     ELSE n' = n + 1 /\ pos' = 0 /\ line' = 1 /\ ind' = << >> /\ bol' = FALSE /\ out' = << >> /\ st' = "run" /\ UNCHANGED c

Goto(j, s) == pos' = j /\ line' = line + Newlines(pos, j) /\ st' = s

Step ==
  /\ st = "run"
  /\ LET i == SkipWhite(pos)
         ln == line + Newlines(pos, i)
         ce == IF i < EOS THEN CommentEnd(i) ELSE -1
         b == Best(i)
         id == Indent(i)
     IN IF i = EOS
        THEN IF X.indent /\ ind # << >>
             THEN /\ out' = Append(out, Token("CLOSE", << >>, ln)) /\ ind' = SubSeq(ind, 1, Len(ind) - 1)
                  /\ Goto(i, "run") /\ UNCHANGED <<c, n, bol>>
             ELSE Goto(i, "end") /\ UNCHANGED <<c, n, ind, bol, out>>
        ELSE IF ce = -2 THEN Goto(i, "bad") /\ UNCHANGED <<c, n, ind, bol, out>>
        ELSE IF ce >= 0 THEN Goto(ce, "run") /\ UNCHANGED <<c, n, ind, bol, out>>
        ELSE IF b.kind = "none" THEN Goto(i, "bad") /\ UNCHANGED <<c, n, ind, bol, out>>
        ELSE IF b.kind = "any" THEN Goto(i, "any") /\ UNCHANGED <<c, n, ind, bol, out>>
        ELSE IF b.kind = "ignore" THEN Goto(b.e, "run") /\ UNCHANGED <<c, n, ind, bol, out>>
        ELSE IF X.indent /\ ~bol /\ id >= 0
        THEN IF id > Top
             THEN out' = Append(out, Token("OPEN", << >>, ln)) /\ ind' = Append(ind, id) /\ Goto(i, "run") /\ UNCHANGED <<c, n, bol>>
             ELSE IF id < Top
             THEN out' = Append(out, Token("CLOSE", << >>, ln)) /\ ind' = SubSeq(ind, 1, Len(ind) - 1) /\ Goto(i, "run") /\ UNCHANGED <<c, n, bol>>
             ELSE out' = Append(out, Token("NL", << >>, ln)) /\ bol' = TRUE /\ Goto(i, "run") /\ UNCHANGED <<c, n, ind>>
        ELSE /\ out' = Append(out, IF b.kind = "keyword" THEN Token("'" \o X.kwnames[b.k], << >>, 0)
                                   ELSE Token(X.patterns[b.k].name, IF b.gs < 0 THEN << >> ELSE SubSeq(Src, b.gs + 1, b.ge), ln))
             /\ bol' = FALSE /\ Goto(b.e, "run") /\ UNCHANGED <<c, n, ind>>

\* length of the character at i in UTF-8
RECURSIVE CharEnd(_)
CharEnd(i) == IF i < EOS /\ At(i) >= 128 /\ At(i) < 192 THEN CharEnd(i + 1) ELSE i

CheckRun ==
  /\ st \in {"end", "bad", "any"}
  /\ LET o == Run.obs
     IN IF st = "any" THEN PrintT("ANY " \o ToJson([case |-> Cases[c].id]))
        ELSE IF st = "end"
        THEN IF o.st # "ok" THEN Report("source with known tokens only rejected", out)
             ELSE IF o.toks = out THEN TRUE ELSE Report("tokens differ", out)
        ELSE IF o.st = "bad" /\ o.line = line THEN TRUE ELSE Report("unknown character or open comment not reported at its line", line)
  /\ st' = "next" /\ UNCHANGED <<c, n, pos, line, ind, bol, out>>

Next == NextRun \/ Step \/ CheckRun
Spec == Init /\ [][Next]_vars

\* ---- properties of the machine
Count(name) == Len(SelectSeq(out, LAMBDA t : t.n = name))
Indenting == IF c \in 1..Len(Cases) THEN X.indent ELSE FALSE
OffsideBalanced == Indenting => /\ Count("OPEN") = Count("CLOSE") + Len(ind)
                                /\ \A k \in 1..(Len(ind) - 1) : ind[k] < ind[k + 1]
ClosedAtEnd == st = "end" => ind = << >>
LinesRise == n > 0 => LET q == SelectSeq(out, LAMBDA t : t.line > 0)
                      IN \A k \in 1..(Len(q) - 1) : q[k].line <= q[k + 1].line
LineIsCount == (n > 0 /\ st = "run") => line = 1 + Newlines(0, pos)
===========================================================================
