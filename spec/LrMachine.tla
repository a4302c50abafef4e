----------------------------- MODULE LrMachine -----------------------------
(***************************************************************************)
(* The compiler front-end as a state machine: table construction, then for *)
(* every source one shift or reduce step at a time, building the AST with  *)
(* scope and step attributes, until the source is accepted or rejected.    *)
(*                                                                         *)
(* The cases (file named by the environment variable CASES) are grammars   *)
(* with token sequences and what the real program did with them: whether a *)
(* conflict was reported, and for each source the root nodes the compiler  *)
(* called, or the syntax error it reported.  The machine is run on every   *)
(* case and every difference is printed (MISMATCH).                        *)
(***************************************************************************)
EXTENDS Lalr, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES
  c,       \* case
  pc,      \* "build", "step", "next", "done"
  aut,     \* LR(0) automaton of the grammar
  tabs,    \* [exact, mewa]: tables
  n,       \* source
  pos,     \* tokens consumed
  stk,     \* parser stack: [st, ast, sc]
  ctr,     \* scope-step counter
  line,    \* line of the last lexeme shifted
  out,     \* what the compiler does: [st |-> "run"] or the outcome
  base,    \* states on the stack after the last shift
  tr       \* steps made, if the run was recorded with debug output

vars == <<c, pc, aut, tabs, n, pos, stk, ctr, line, out, base, tr>>
View == <<c, pc, n, pos, stk, ctr, line, out>>

G == Cases[c].g
Run == Cases[c].runs[n]
\* terminals and lines of the current source, the end included
Tok(k) == IF k > Len(Run.toks) THEN 0 ELSE Run.toks[k].t
TokLine(k) == IF k > Len(Run.toks) THEN Run.eofline ELSE Run.toks[k].line

Init == /\ c \in 1..Len(Cases) /\ pc = "build" /\ aut = << >> /\ tabs = << >> /\ n = 0 /\ pos = 0
        /\ stk = << >> /\ ctr = 0 /\ line = 0 /\ out = [st |-> "run"] /\ base = << >> /\ tr = << >>

Report(what, detail) == PrintT("MISMATCH " \o ToJson([case |-> Cases[c].id, run |-> n, what |-> what, detail |-> detail]))
Check(cond, what, detail) == IF cond THEN TRUE ELSE Report(what, detail)

\* A conflict of the exact tables has to be reported; none may be reported when the tables of mewa have none.
BuildOk(E, M) ==
  LET obs == Cases[c].conflict
      e == Verdict(E)
      m == Verdict(M)
  IN /\ Check(IF e = "yes" THEN obs ELSE TRUE, "conflict not reported", m)
     /\ Check(IF m = "no" THEN ~obs ELSE TRUE, "conflict reported for an LALR(1) grammar", e)
     /\ IF obs /\ e = "no" THEN PrintT("SPURIOUS " \o ToJson([case |-> Cases[c].id])) ELSE TRUE

Build ==
  /\ pc = "build"
  /\ LET A == Lr0(G)
         E == Table(G, A, FALSE)
         M == Table(G, A, TRUE)
     IN /\ BuildOk(E, M)
        \* the runs of a table without a conflict; none if the decision of a conflict depends on an order or a conflict was missed
        /\ aut' = A /\ tabs' = [exact |-> E, mewa |-> IF Verdict(M) = "no" THEN M ELSE E,
                                 runs |-> ~Cases[c].conflict /\ Verdict(E) = "no" /\ Verdict(M) # "any"]
        /\ PrintT("BUILT " \o ToJson([case |-> Cases[c].id, states |-> Len(A.ker), exact |-> Verdict(E), mewa |-> Verdict(M)]))
  /\ pc' = "next" /\ UNCHANGED <<c, n, pos, stk, ctr, line, out, base, tr>>

Next0 ==
  /\ pc = "next"
  /\ IF n = Len(Cases[c].runs) \/ ~tabs.runs
     THEN /\ PrintT("DONE " \o ToJson([case |-> Cases[c].id, runs |-> n])) /\ pc' = "done"
          /\ UNCHANGED <<c, aut, tabs, n, pos, stk, ctr, line, out, base, tr>>
     ELSE /\ n' = n + 1 /\ pos' = 0 /\ stk' = <<[st |-> 1, ast |-> << >>, sc |-> 0]>>
          /\ ctr' = 0 /\ line' = 0 /\ out' = [st |-> "run"] /\ pc' = "step" /\ base' = <<1>> /\ tr' = << >> /\ UNCHANGED <<c, aut, tabs>>

Top == stk[Len(stk)].st
T == Tok(pos + 1)
Act == tabs.mewa[Top][T].act

\* ---- steps as the debug output shows them; the numbers of states are compared by what they stand for
TokText(k) == IF Tok(k) = 0 THEN "$" ELSE IF G.kw[Tok(k)] THEN G.shown[Tok(k)]
              ELSE G.names[Tok(k)] \o " = \"" \o Run.toks[k].v \o "\""
Step(k, s) == [k |-> k, tok |-> IF k = "A" THEN "" ELSE TokText(pos + 1), line |-> IF k = "A" THEN 0 ELSE TokLine(pos + 1),
               st |-> IF k = "A" THEN 0 ELSE Top, go |-> s, n |-> 0, nt |-> "", call |-> "", eof |-> T = 0]
ReduceStep(p, s) == [Step("R", s) EXCEPT !.n = Len(p.r), !.nt = G.nts[p.l - 100], !.call = IF p.call = "" THEN "" ELSE p.step]
Trace(e) == tr' = IF Cases[c].traced THEN Append(tr, e) ELSE tr

\* ---- nodes of the AST
Leaf == LET k == Run.toks[pos + 1]
        IN [k |-> 0, n |-> G.names[k.t], v |-> k.v, line |-> k.line, sk |-> "", s1 |-> 0, s2 |-> 0, ch |-> << >>]
RECURSIVE Concat(_, _)
Concat(q, k) == IF k > Len(q) THEN << >> ELSE q[k].ast \o Concat(q, k + 1)

Shift ==
  /\ pc = "step" /\ Act = -1
  /\ LET kw == G.kw[T]
     IN /\ stk' = Append(stk, [st |-> aut.go[Top][T], ast |-> IF kw THEN << >> ELSE <<Leaf>>, sc |-> ctr])
        /\ line' = IF kw THEN line ELSE TokLine(pos + 1)
  /\ pos' = pos + 1
  /\ base' = [k \in 1..(Len(stk) + 1) |-> IF k > Len(stk) THEN aut.go[Top][T] ELSE stk[k].st]
  /\ Trace(Step("S", aut.go[Top][T]))
  /\ UNCHANGED <<c, pc, aut, tabs, n, ctr, out>>

\* Effect of a reduction by production p on the stack and the counter
Reduced(p) ==
  LET m == Len(p.r)
      popped == SubSeq(stk, Len(stk) - m + 1, Len(stk))
      sc == IF m = 0 THEN ctr ELSE popped[1].sc
      ast == Concat(popped, 1)
      ctr1 == IF p.sf = "" THEN ctr ELSE ctr + 1
      \* a scope attribute without a call has no effect
      ctr2 == IF p.call = "" /\ p.sf = "scope" THEN ctr ELSE ctr1
      node == [k |-> 1, n |-> p.call, v |-> p.arg, line |-> line,
               sk |-> IF p.sf = "scope" THEN "scope" ELSE "step",
               s1 |-> IF p.sf = "scope" THEN sc ELSE ctr1, s2 |-> IF p.sf = "scope" THEN ctr1 ELSE 0, ch |-> ast]
  IN [rest |-> SubSeq(stk, 1, Len(stk) - m), ast |-> IF p.call = "" THEN ast ELSE <<node>>, sc |-> sc, ctr |-> ctr2]

Reduce ==
  /\ pc = "step" /\ Act > 1
  /\ LET p == G.prods[Act]
         e == Reduced(p)
         under == e.rest[Len(e.rest)].st
     IN /\ stk' = Append(e.rest, [st |-> aut.go[under][p.l], ast |-> e.ast, sc |-> e.sc])
        /\ ctr' = e.ctr
        /\ Trace(ReduceStep(p, aut.go[under][p.l]))
  /\ UNCHANGED <<c, pc, aut, tabs, n, pos, line, out, base>>

\* The root nodes are called in order, up to the first one that fails or has no function
RECURSIVE RootCalls(_)
RootCalls(q) ==
  IF q = << >> THEN [st |-> "accept", calls |-> << >>]
  ELSE IF Head(q).k = 0 THEN [st |-> "leaf", calls |-> << >>]
  ELSE LET x == Head(q)
           call == [fn |-> x.n, node |-> x, args |-> (IF x.v = "nil" THEN << >> ELSE <<x.v>>) \o (IF Run.opt = "nil" THEN << >> ELSE <<Run.opt>>)]
           fails == \E f \in {"fail0", "fail1", "fail2"} : f = x.n
           r == RootCalls(Tail(q))
       IN IF fails THEN [st |-> "fail", calls |-> <<call>>] ELSE [st |-> r.st, calls |-> <<call>> \o r.calls]

Accept ==
  /\ pc = "step" /\ Act = 1
  \* the root nodes of a language without any call are not processed
  /\ out' = IF \A k \in 1..Len(G.prods) : G.prods[k].call = "" THEN [st |-> "accept", calls |-> << >>]
            ELSE RootCalls(Reduced(G.prods[1]).ast)
  /\ Trace(Step("A", 0))
  /\ pc' = "check" /\ UNCHANGED <<c, aut, tabs, n, pos, stk, ctr, line, base>>

\* The expected tokens are those of the state the parser stops in. Reductions made on a look-ahead that only the
\* over-approximation has are allowed, not required: the stop of the exact table is allowed as well.
RECURSIVE ExactStack(_, _)
ExactStack(q, t) ==
  LET d == tabs.exact[q[Len(q)]][t].act
  IN IF d > 1 THEN LET r == SubSeq(q, 1, Len(q) - Len(G.prods[d].r))
                   IN ExactStack(Append(r, aut.go[r[Len(r)]][G.prods[d].l]), t)
     ELSE q
NameOf(t) == IF t = 0 THEN "$" ELSE G.shown[t]
Shown(S) == {NameOf(t) : t \in S}
Fail ==
  /\ pc = "step" /\ Act = 0
  /\ out' = [st |-> "error", tok |-> T, line |-> TokLine(pos + 1), exp |-> Shown(Expected(tabs.mewa, Top)),
              exact |-> LET q == ExactStack(base, T) IN Shown(Expected(tabs.exact, q[Len(q)]))]
  /\ Trace(Step("E", 0))
  /\ pc' = "check" /\ UNCHANGED <<c, aut, tabs, n, pos, stk, ctr, line, base>>

\* ---- comparison with what was observed
Words == [k \in 1..Len(Run.toks) |-> Run.toks[k].t]

\* The calls of the root nodes, with the number of the call as result if they have an argument
CallSteps(k) ==
  LET x == out.calls[k].node
      p == G.prods[CHOOSE j \in 1..Len(G.prods) : G.prods[j].call = x.n /\ G.prods[j].arg = x.v]
      e == [k |-> "C", tok |-> "", line |-> 0, st |-> 0, go |-> 0, n |-> 0, nt |-> "", call |-> p.name, eof |-> FALSE]
      failed == out.st = "fail" /\ k = Len(out.calls)
  IN IF x.v = "nil" \/ failed THEN <<e>> ELSE <<e, [e EXCEPT !.k = "V", !.call = "", !.n = k, !.tok = ToString(k)]>>
RECURSIVE AllCallSteps(_)
AllCallSteps(k) == IF k > Len(out.calls) THEN << >> ELSE CallSteps(k) \o AllCallSteps(k + 1)

\* The same steps, and the numbers of states a renaming of the states
Fields == {"k", "tok", "line", "n", "nt", "call"}
SameSteps(O, E) ==
  /\ Len(O) = Len(E)
  /\ \A k \in 1..Len(E) : \A f \in Fields : O[k][f] = E[k][f]
  /\ LET P == UNION {{<<E[k].st, O[k].st>>, <<E[k].go, O[k].go>>} : k \in 1..Len(E)}
     IN \A x, y \in P : (x[1] = y[1]) = (x[2] = y[2])
FirstAtEof(E) == {k \in 1..Len(E) : E[k].eof /\ \A j \in 1..(k - 1) : ~E[j].eof}
\* Steps that may be shown: all; the reductions on the token of a syntax error that only the over-approximation has are not required
Shows ==
  IF out.st # "error" THEN {tr \o AllCallSteps(1)}
  ELSE LET m == Len(tr)
           Q == {k \in 0..(m - 1) : \A j \in (k + 1)..(m - 1) : tr[j].k = "R"}
       IN {Append(SubSeq(tr, 1, k), [tr[m] EXCEPT !.st = IF k = 0 THEN 1 ELSE tr[k].go]) : k \in Q}
\* Known finding: the first step at the end of the source is not shown
CheckTrace(O) ==
  IF \E E \in Shows : SameSteps(O, E) THEN TRUE
  ELSE IF \E E \in Shows : \E k \in FirstAtEof(E) : SameSteps(O, RemoveAt(E, k))
       THEN PrintT("UNSHOWN " \o ToJson([case |-> Cases[c].id, run |-> n]))
  ELSE Report("steps shown differ", [shown |-> O, steps |-> CHOOSE E \in Shows : \A F \in Shows : Len(F) <= Len(E)])

CheckRun ==
  /\ pc = "check"
  /\ LET o == Run.obs
     IN IF out.st # "error"
        THEN IF o.st = "error" \/ o.st = "other" THEN Report("sentence of the grammar not accepted", o)
             ELSE IF o.st # out.st THEN Report("root calls end differently", out.st)
             ELSE Check(o.calls = out.calls, "root calls or tree differ", out.calls)
        ELSE IF o.st # "error" THEN Report("source outside the language not rejected", out)
             ELSE IF o.line # out.line \/ o.tok # TokText(pos + 1)
                  THEN Report("syntax error is not at the first token that cannot follow", [line |-> out.line, tok |-> TokText(pos + 1)])
             ELSE IF o.calls # << >> THEN Report("node functions called for a source with a syntax error", o.calls)
             ELSE Check(ToSet(o.exp) = out.exp \/ ToSet(o.exp) = out.exact, "expected tokens differ", out.exp)
  /\ IF Cases[c].traced THEN CheckTrace(Run.obs.trace) ELSE TRUE
  /\ IF ~Run.member \/ InLanguage(G, Words) = (out.st # "error") THEN TRUE
     ELSE PrintT("SPECERROR " \o ToJson([case |-> Cases[c].id, run |-> n]))
  /\ pc' = "next" /\ UNCHANGED <<c, aut, tabs, n, pos, stk, ctr, line, out, base, tr>>

Next == Build \/ Next0 \/ Shift \/ Reduce \/ Accept \/ Fail \/ CheckRun
Spec == Init /\ [][Next]_vars

\* ---- invariants of the machine
\* the leaves on the stack are the lexemes consumed, in order: nothing is lost, doubled or reordered
RECURSIVE Leaves(_)
Leaves(q) == IF q = << >> THEN << >>
             ELSE (IF Head(q).k = 0 THEN <<Head(q)>> ELSE Leaves(Head(q).ch)) \o Leaves(Tail(q))
YieldIsSource ==
  pc = "step" =>
    LET L == Leaves(Concat(stk, 1))
        S == SelectSeq(SubSeq(Run.toks, 1, pos), LAMBDA x : ~G.kw[x.t])
    IN Len(L) = Len(S) /\ \A k \in 1..Len(L) : L[k].v = S[k].v /\ L[k].line = S[k].line /\ L[k].n = G.names[S[k].t]
\* scopes of the nodes are proper intervals, nested or disjoint, children inside
RECURSIVE ScopesIn(_, _, _)
ScopesIn(q, lo, hi) ==
  \A k \in 1..Len(q) :
     IF q[k].k = 0 THEN TRUE
     ELSE IF q[k].sk = "scope" THEN lo <= q[k].s1 /\ q[k].s1 < q[k].s2 /\ q[k].s2 <= hi /\ ScopesIn(q[k].ch, q[k].s1, q[k].s2)
     ELSE q[k].s1 <= hi /\ ScopesIn(q[k].ch, lo, hi)
ScopesNest == pc = "step" => ScopesIn(Concat(stk, 1), 0, ctr)
\* Trees of binary operators (production k of a case with the mark calls fk) follow priority and associativity: an operand
\* that is an operation itself binds stronger, or equally strong on the side its associativity names.
ProdOf(x) == CHOOSE k \in 1..Len(G.prods) : G.prods[k].call = x.n
Binary(x) == x.k = 1 /\ Len(x.ch) = 2
RECURSIVE PrecOk(_)
PrecOk(x) ==
  IF x.k = 0 THEN TRUE
  ELSE /\ \A j \in 1..Len(x.ch) : PrecOk(x.ch[j])
       /\ Binary(x) =>
            LET p == G.prods[ProdOf(x)]
                Fits(y, side) == Binary(y) => LET q == G.prods[ProdOf(y)]
                                              IN q.prio > p.prio \/ (q.prio = p.prio /\ p.assoc = side /\ q.assoc = side)
            IN Fits(x.ch[1], "L") /\ Fits(x.ch[2], "R")
Precedence == (pc = "check" /\ Cases[c].binary /\ out.st = "accept") => PrecOk(out.calls[1].node)
\* start counters never decrease along the stack
StackOrdered == pc = "step" => \A k \in 1..(Len(stk) - 1) : stk[k].sc <= stk[k + 1].sc
===========================================================================
