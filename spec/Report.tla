------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* The report of the generator: what mewa -g -d shows of the automaton of a *)
(* grammar, and the conflicts it names.                                    *)
(*                                                                         *)
(* The report is an automaton itself.  The machine walks through it and    *)
(* the LR(0) automaton of the grammar at the same time, from their start   *)
(* states along the gotos shown (VARIABLE map: what a number of a state     *)
(* stands for), comparing items, cores, look-aheads and transitions of the  *)
(* two, and then compares the tables, the messages and the steps recorded   *)
(* from the compiler with the automaton read.                              *)
(*                                                                         *)
(* A look-ahead shown has to contain the exact one and may not go beyond    *)
(* the one with the deviations recorded as known findings (see Lalr).  The *)
(* action table has to be what follows from the look-aheads shown and the   *)
(* priorities.                                                             *)
(***************************************************************************)
EXTENDS Lalr, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES
  c,     \* case
  pc,    \* "build", "walk", "tables", "messages", "runs", "done"
  aut,   \* LR(0) automaton of the grammar
  la,    \* [exact, mewa]: for each terminal the <<state, item>> that have it as look-ahead
  map,   \* states of the report reached -> states of aut
  todo   \* states of the report reached and not compared yet

vars == <<c, pc, aut, la, map, todo>>

G == Cases[c].g
R == Cases[c].rep
Ran(q) == {q[i] : i \in DOMAIN q}
Prods == 1..Len(G.prods)
Terminals == 0..G.nterm

Report(what, detail) == PrintT("MISMATCH " \o ToJson([case |-> Cases[c].id, what |-> what, detail |-> detail]))
Check(cond, what, detail) == IF cond THEN TRUE ELSE Report(what, detail)

Init == /\ c \in 1..Len(Cases) /\ pc = "build" /\ aut = << >> /\ la = << >> /\ map = << >> /\ todo = << >>

\* ---- the grammar as the report shows it
Lists ==
  /\ Check(Len(R.terms) = Len(G.shown) /\ {x.name : x \in Ran(R.terms)} = Ran(G.shown), "terminals", R.terms)
  /\ Check({x.id : x \in Ran(R.terms)} = 1..Len(R.terms), "numbers of terminals", R.terms)
  /\ Check(Len(R.nts) = Len(G.nts) /\ Ran(R.nts) = Ran(G.nts) /\ (IF R.nts # << >> THEN R.nts[1] = G.nts[1] ELSE FALSE), "nonterminals", R.nts)
  /\ Check(Len(R.prods) = Len(G.prods) /\ {x.p : x \in Ran(R.prods)} = Prods, "productions", R.prods)
  /\ \A x \in Ran(R.prods) :
       IF x.p = 0 THEN TRUE
       ELSE Check(x.sf = G.prods[x.p].sf /\ x.call = G.prods[x.p].call, "scope or call of a production", x)

Build ==
  /\ pc = "build"
  /\ Lists
  /\ LET A == Lr0(G)
     IN aut' = A /\ la' = [exact |-> LookAheads(G, A, FALSE), mewa |-> LookAheads(G, A, TRUE)]
  /\ map' = [x \in {1} |-> 1] /\ todo' = <<1>> /\ pc' = "walk" /\ UNCHANGED c

\* ---- the states
Item(x) == <<x.p, x.d>>
Items(q) == {Item(q[i]) : i \in DOMAIN q}
LinesOf(s) == IF s \in DOMAIN R.lalr THEN R.lalr[s] ELSE << >>
FollowOf(S, i) == UNION {Ran(x.follow) : x \in {y \in S : Item(y) = i}}

\* one line: production, look-ahead and what is done
Line(s, k, x) ==
  LET i == Item(x)
      low == {t \in Terminals : <<k, i>> \in la.exact[t]}
      high == {t \in Terminals : <<k, i>> \in la.mewa[t]}
      f == Ran(x.follow)
      p == G.prods[x.p]
  IN IF i \notin aut.clo[k] THEN TRUE    \* said already
     ELSE /\ (IF x.do = "accept" THEN TRUE ELSE Check(low \subseteq f, "look-ahead missing", [state |-> s, line |-> x, missing |-> low \ f]))
          /\ (IF x.do = "accept" THEN TRUE ELSE Check(f \subseteq high, "look-ahead that cannot be", [state |-> s, line |-> x, more |-> f \ high]))
          /\ Check(CASE x.do = "accept" -> AtEnd(G, i) /\ x.p = 1
                     [] x.do = "reduce" -> AtEnd(G, i) /\ x.nt = G.nts[p.l - 100] /\ x.n = Len(p.r) /\ x.call = p.call /\ x.tailsf = p.sf /\ x.tail = p.call
                     [] x.do = "shift" -> ~AtEnd(G, i) /\ AfterDot(G, i) = x.sym
                     [] x.do = "goto" -> ~AtEnd(G, i) /\ IsNT(AfterDot(G, i)),
                   "what is done with an item", [state |-> s, line |-> x])

Compare(s, k) ==
  LET q == IF s \in DOMAIN R.lr0 THEN R.lr0[s] ELSE << >>
      core == IF s \in DOMAIN R.cores THEN R.cores[s] ELSE << >>
      acc == SelectSeq(LinesOf(s), LAMBDA x : x.do = "accept")
      l == SelectSeq(LinesOf(s), LAMBDA x : x.do # "accept")
      I == Items(l)
      \* of completed items with the same look-ahead the first is shown: they are in conflict, or have no look-ahead
      hidden == {i \in aut.clo[k] \ I : AtEnd(G, i) /\ \E x \in Ran(l) : AtEnd(G, Item(x))
                                          /\ {t \in Terminals : <<k, i>> \in la.exact[t]} \subseteq Ran(x.follow)}
  IN /\ Check(Items(q) = aut.clo[k] /\ Len(q) = Cardinality(aut.clo[k]), "items of a state", [state |-> s, shown |-> q])
     /\ Check(IF k = 1 THEN core = << >> ELSE Items(core) = aut.ker[k] /\ Len(core) = Cardinality(aut.ker[k]), "core of a state", [state |-> s, shown |-> core])
     /\ Check(I \cup hidden = aut.clo[k] /\ Len(l) = Cardinality(I), "items with look-ahead", [state |-> s, shown |-> l])
     /\ Check(Len(acc) = (IF <<1, Len(G.prods[1].r)>> \in aut.clo[k] THEN 1 ELSE 0), "accept", [state |-> s])
     /\ \A j \in DOMAIN LinesOf(s) : Line(s, k, LinesOf(s)[j])

\* transitions shown: [go, to]: number of the state and what it stands for
Moves(s, k) == {[go |-> x.go, to |-> aut.go[k][AfterDot(G, Item(x))]] :
                  x \in {y \in Ran(LinesOf(s)) : y.do \in {"shift", "goto"} /\ Item(y) \in aut.clo[k] /\ ~AtEnd(G, Item(y))}}
Walk ==
  /\ pc = "walk" /\ todo # << >>
  /\ LET s == Head(todo)
         k == map[s]
         M == Moves(s, k)
         New == {m.go : m \in M} \ DOMAIN map
     IN /\ Compare(s, k)
        /\ \A m \in M : Check(IF m.go \in DOMAIN map THEN map[m.go] = m.to ELSE TRUE, "two states with one number", [state |-> s, move |-> m])
        /\ \A g \in New : Check(Cardinality({m \in M : m.go = g}) = 1, "two states with one number", [state |-> s, goto |-> g])
        /\ map' = [x \in DOMAIN map \cup New |-> IF x \in DOMAIN map THEN map[x] ELSE (CHOOSE m \in M : m.go = x).to]
        /\ todo' = Tail(todo) \o SetToSeq(New)
  /\ UNCHANGED <<c, pc, aut, la>>

Walked ==
  /\ pc = "walk" /\ todo = << >>
  /\ Check({map[s] : s \in DOMAIN map} = 1..Len(aut.ker) /\ Cardinality(DOMAIN map) = Len(aut.ker), "states not shown or shown twice", Cardinality(DOMAIN map))
  /\ Check(Len(R.lr0) = Len(aut.ker) /\ Len(R.lalr) = Len(aut.ker), "states of another grammar shown", <<Len(R.lr0), Len(R.lalr)>>)
  /\ pc' = IF Cases[c].conflict THEN "messages" ELSE "tables"
  /\ UNCHANGED <<c, aut, la, map, todo>>

\* ---- the tables, for the look-aheads shown
Shown == TLCEval([t \in Terminals |-> {<<map[y[1]], Item(y[2])>> : y \in
            UNION {{<<s, x>> : x \in {z \in Ran(LinesOf(s)) : z.do # "accept" /\ t \in Ran(z.follow)}} : s \in DOMAIN map}}])
ActionsOf(s) == IF s \in DOMAIN R.actions THEN Ran(R.actions[s]) ELSE {}
Tables ==
  /\ pc = "tables"
  /\ LET L == Shown
         D == TLCEval([s \in DOMAIN map |-> [t \in Terminals |-> Decide(G, aut, L, map[s], t)]])
         solved == {<<s, t>> \in (DOMAIN map) \X Terminals : t \in DOMAIN aut.go[map[s]] /\ \E x \in L[t] : x[1] = map[s] /\ AtEnd(G, x[2])}
     IN /\ \A s \in DOMAIN map : \A t \in Terminals :
             LET d == D[s][t]
                 E == {x \in ActionsOf(s) : x.t = t}
             IN IF d.conflict # "no" THEN TRUE
                ELSE Check(IF d.act = 0 THEN E = {}
                           ELSE /\ Cardinality(E) = 1
                                /\ LET e == CHOOSE x \in E : TRUE
                                   IN IF d.act = -1 THEN e.k = "S" /\ (IF e.go \in DOMAIN map THEN map[e.go] = aut.go[map[s]][t] ELSE FALSE)
                                      ELSE IF d.act = 1 THEN e.k = "A"
                                      ELSE LET p == G.prods[d.act]
                                           IN e.k = "R" /\ e.n = Len(p.r) /\ e.nt = G.nts[p.l - 100] /\ e.call = p.call,
                           "action table", [state |-> s, t |-> t, shown |-> E, act |-> d.act])
        /\ Check(\A s \in DOMAIN R.actions : Cardinality(ActionsOf(s)) = Len(R.actions[s]) /\ (IF R.actions[s] # << >> THEN s \in DOMAIN map ELSE TRUE),
                 "action table has more", "")
        /\ Check(R.solved = Cardinality(solved), "conflicts solved by priority", [shown |-> R.solved, solved |-> solved])
  /\ \A s \in DOMAIN map :
       Check((IF s \in DOMAIN R.gotos THEN {<<x.nt, IF x.go \in DOMAIN map THEN map[x.go] ELSE 0>> : x \in Ran(R.gotos[s])} ELSE {})
             = {<<G.nts[X - 100], aut.go[map[s]][X]>> : X \in {y \in DOMAIN aut.go[map[s]] : IsNT(y)}}, "goto table", [state |-> s])
  /\ pc' = "runs" /\ UNCHANGED <<c, aut, la, map, todo>>

\* ---- the messages of conflicts: [code, ts, ps, all, prio]
ShiftItems(k, t) == {i \in aut.clo[k] : ~AtEnd(G, i) /\ AfterDot(G, i) = t}
Completed(k, t, L) == {x[2] : x \in {y \in L[t] : y[1] = k /\ AtEnd(G, y[2])}}
Times(q, p) == Cardinality({j \in DOMAIN q : q[j] = p})
CountOf(S, p) == Cardinality({i \in S : i[1] = p})
\* the message m is about state k
About(m, k) ==
  \A t \in Ran(m.ts) :
    LET S == ShiftItems(k, t)
        C0 == Completed(k, t, la.exact)
        C1 == Completed(k, t, la.mewa)
    IN IF m.prio
       THEN \* of two items that shift the same token with different priorities one is named
            /\ \E i \in S : i[1] \in Ran(m.ps)
            /\ Cardinality({Prio(G.prods[i[1]]) : i \in S}) > 1
       ELSE /\ Ran(m.ps) \subseteq Prods
            /\ \A p \in Prods : /\ Times(m.ps, p) <= CountOf(S \cup C1, p)
                                /\ (IF m.all THEN CountOf(S \cup C0, p) <= Times(m.ps, p) ELSE TRUE)
            /\ Len(m.ps) > 1
            /\ C1 # {}
Messages ==
  /\ pc = "messages"
  /\ Check(R.messages # << >>, "conflicts without a message", "")
  /\ \A j \in DOMAIN R.messages :
       Check(\E k \in 1..Len(aut.ker) : About(R.messages[j], k), "message about no conflict", R.messages[j])
  /\ LET E == TLCEval([k \in 1..Len(aut.ker) |-> [t \in Terminals |-> Decide(G, aut, la.exact, k, t)]])
     IN \A k \in 1..Len(aut.ker) : \A t \in Terminals :
          IF E[k][t].conflict # "yes" THEN TRUE
          ELSE Check(\E m \in Ran(R.messages) : t \in Ran(m.ts) /\ About(m, k), "conflict not named", [t |-> t, items |-> aut.ker[k]])
  /\ pc' = "runs" /\ UNCHANGED <<c, aut, la, map, todo>>

\* ---- the steps recorded from the compiler written are those of the action table
StepOk(x) ==
  LET E == {e \in ActionsOf(x.st) : e.t = x.t}
  IN IF x.k = "E" THEN E = {}
     ELSE \E e \in E : /\ e.k = x.k
                       /\ (IF x.k = "S" THEN e.go = x.go ELSE e.n = x.n /\ e.nt = x.nt)
Runs ==
  /\ pc = "runs"
  /\ \A j \in DOMAIN R.steps : Check(StepOk(R.steps[j]), "step of the compiler that is not in the table shown", R.steps[j])
  /\ PrintT("DONE " \o ToJson([case |-> Cases[c].id, states |-> Len(aut.ker), steps |-> Len(R.steps), messages |-> Len(R.messages)]))
  /\ pc' = "done" /\ UNCHANGED <<c, aut, la, map, todo>>

Next == Build \/ Walk \/ Walked \/ Tables \/ Messages \/ Runs
Spec == Init /\ [][Next]_vars

View == <<c, pc, map, todo>>
\* what is to be compared was reached, once
TodoReached == /\ \A j \in DOMAIN todo : todo[j] \in DOMAIN map
               /\ \A i, j \in DOMAIN todo : todo[i] = todo[j] => i = j
=============================================================================
