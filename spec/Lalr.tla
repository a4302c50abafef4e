------------------------------- MODULE Lalr -------------------------------
(***************************************************************************)
(* LALR(1) tables of a mewa grammar.                                       *)
(*                                                                         *)
(* A grammar G is a record                                                 *)
(*   prods  sequence of [l, r, prio, assoc, ...]: left side (a number      *)
(*          above 100), right side (sequence of numbers), priority         *)
(*   nterm  the terminals are 1..nterm, 0 is the end of the source         *)
(* The first production is the start production; its left side occurs      *)
(* nowhere else.                                                           *)
(*                                                                         *)
(* Two look-ahead computations are defined: the exact one (variant         *)
(* "exact"), and the one mewa makes (variant "mewa"), which is a superset: *)
(* it takes the empty word for an element $ of a FIRST set, and gives every *)
(* item of a state the look-ahead of all items of the state with the same  *)
(* left side (kernel or not).  Both deviations are recorded as known findings;    *)
(* they cannot change the language, but they can make mewa report a        *)
(* conflict for an LALR(1) grammar.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

IsNT(x) == x > 100
Nonterminals(G) == {G.prods[k].l : k \in 1..Len(G.prods)}
ProdsOf(G, nt) == {k \in 1..Len(G.prods) : G.prods[k].l = nt}

\* ---- nullable nonterminals and FIRST sets
NullableSeq(q, N) == \A k \in 1..Len(q) : q[k] \in N
RECURSIVE NullFix(_, _)
NullFix(G, N) ==
  LET M == N \cup {G.prods[k].l : k \in {x \in 1..Len(G.prods) : NullableSeq(G.prods[x].r, N)}}
  IN IF M = N THEN N ELSE NullFix(G, M)
Nullable(G) == NullFix(G, {})

\* positions of q that a FIRST computation looks at: everything before the first non-nullable symbol, and that
FirstPositions(q, N) == {k \in 1..Len(q) : \A j \in 1..(k - 1) : q[j] \in N}
FirstOfSeq(q, F, N) == UNION {IF IsNT(q[k]) THEN F[q[k]] ELSE {q[k]} : k \in FirstPositions(q, N)}
RECURSIVE FirstFix(_, _, _, _)
FirstFix(G, F, N, leak) ==
  LET H == [nt \in DOMAIN F |->
              F[nt] \cup UNION {FirstOfSeq(G.prods[k].r, F, N)
                                \cup (IF leak /\ NullableSeq(G.prods[k].r, N) THEN {0} ELSE {}) : k \in ProdsOf(G, nt)}]
  IN IF TLCEval(H) = F THEN F ELSE FirstFix(G, TLCEval(H), N, leak)
First(G, N, leak) == FirstFix(G, [nt \in Nonterminals(G) |-> {}], N, leak)

\* ---- LR(0) automaton; an item is <<production, position of the dot>>
AtEnd(G, i) == i[2] = Len(G.prods[i[1]].r)
AfterDot(G, i) == G.prods[i[1]].r[i[2] + 1]
RestOf(G, i) == SubSeq(G.prods[i[1]].r, i[2] + 2, Len(G.prods[i[1]].r))
RECURSIVE Closure(_, _)
Closure(G, I) ==
  LET J == I \cup UNION {{<<k, 0>> : k \in ProdsOf(G, AfterDot(G, i))} :
                            i \in {x \in I : ~AtEnd(G, x) /\ IsNT(AfterDot(G, x))}}
  IN IF J = I THEN I ELSE Closure(G, J)
Symbols(G, C) == {AfterDot(G, i) : i \in {x \in C : ~AtEnd(G, x)}}
Kernel(G, C, X) == {<<i[1], i[2] + 1>> : i \in {x \in C : ~AtEnd(G, x) /\ AfterDot(G, x) = X}}
RECURSIVE StatesFix(_, _, _)
StatesFix(G, Done, Todo) ==
  IF Todo = {} THEN Done
  ELSE LET New == UNION {LET C == Closure(G, K) IN {Kernel(G, C, X) : X \in Symbols(G, C)} : K \in Todo}
       IN StatesFix(G, Done \cup Todo, New \ (Done \cup Todo))
StartKernel == {<<1, 0>>}

\* the LR(0) automaton: states are numbers, state 1 is the start state
Lr0(G) ==
  LET Q == TLCEval(<<StartKernel>> \o SetToSeq(StatesFix(G, {}, {StartKernel}) \ {StartKernel}))
      C == TLCEval([k \in 1..Len(Q) |-> Closure(G, Q[k])])
  IN [ker |-> Q, clo |-> C,
      go |-> TLCEval([k \in 1..Len(Q) |-> [X \in Symbols(G, C[k]) |->
                 LET T == Kernel(G, C[k], X) IN CHOOSE s \in 1..Len(Q) : Q[s] = T]])]

\* ---- look-aheads: least solution of the propagation equations, for each terminal the set of <<state, item>> that have it
\* where the look-ahead of <<k, i>> flows to
Flow(G, A, N, mewa, k, i) ==
  LET join == IF mewa THEN {<<k, j>> : j \in {x \in A.clo[k] : G.prods[x[1]].l = G.prods[i[1]].l}} ELSE {}
  IN IF AtEnd(G, i) THEN join
     ELSE LET X == AfterDot(G, i)
          IN join \cup {<<A.go[k][X], <<i[1], i[2] + 1>>>>}
             \cup IF IsNT(X) /\ NullableSeq(RestOf(G, i), N) THEN {<<k, <<p, 0>>>> : p \in ProdsOf(G, X)} ELSE {}
\* terminals <<state, item>> gives to the productions of the nonterminal after the dot
Given(G, A, F, N, i) == IF AtEnd(G, i) \/ ~IsNT(AfterDot(G, i)) THEN {} ELSE FirstOfSeq(RestOf(G, i), F, N)
RECURSIVE Reach(_, _, _)
Reach(E, Seen, Todo) ==
  IF Todo = {} THEN Seen
  ELSE LET New == UNION {E[x] : x \in Todo} \ Seen IN Reach(E, Seen \cup New, New)
LookAheads(G, A, mewa) ==
  LET N == TLCEval(Nullable(G))
      F == TLCEval(First(G, N, mewa))
      Nodes == TLCEval(UNION {{<<k, i>> : i \in A.clo[k]} : k \in 1..Len(A.ker)})
      E == TLCEval([x \in Nodes |-> Flow(G, A, N, mewa, x[1], x[2])])
      Givers == TLCEval([x \in Nodes |-> Given(G, A, F, N, x[2])])
      Seed(t) == (IF t = 0 THEN {<<1, <<1, 0>>>>} ELSE {})
                 \cup UNION {{<<x[1], <<p, 0>>>> : p \in ProdsOf(G, AfterDot(G, x[2]))} : x \in {y \in Nodes : t \in Givers[y]}}
  IN TLCEval([t \in 0..G.nterm |-> LET S == Seed(t) IN Reach(E, S, S)])

\* ---- actions
Prio(p) == <<p.prio, p.assoc>>
Defined(pr) == pr[1] # 0 \/ pr[2] # ""

\* Decision for a state and a terminal: act is 0 for none, -1 for shift, k for reduce by production k.
\* conflict: "no", "yes" or "any" (depends on the order in which several reductions meet a shift).
Decide(G, A, L, k, t) ==
  LET sh == t \in DOMAIN A.go[k]
      SP == {Prio(G.prods[i[1]]) : i \in {x \in A.clo[k] : ~AtEnd(G, x) /\ AfterDot(G, x) = t}}
      R == {i[1] : i \in {x \in A.clo[k] : AtEnd(G, x) /\ <<k, x>> \in L[t]}}
      s == CHOOSE x \in SP : TRUE
      r == CHOOSE x \in R : TRUE
      rp == Prio(G.prods[r])
      D(act, c) == [act |-> act, conflict |-> c]
  IN IF sh /\ Cardinality(SP) > 1 THEN D(-1, "yes")
     ELSE IF ~sh
     THEN IF R = {} THEN D(0, "no")
          ELSE IF Cardinality(R) = 1 THEN D(r, "no") ELSE D(r, "yes")
     ELSE IF R = {} THEN D(-1, "no")
     ELSE IF Cardinality(R) > 1
     THEN IF \A x \in R : Prio(G.prods[x]) = << 0, "" >> THEN D(-1, "yes") ELSE D(-1, "any")
     ELSE IF Defined(rp) # Defined(s) THEN D(-1, "yes")
     ELSE IF rp[1] > s[1] THEN D(r, "no")
     ELSE IF rp[1] < s[1] THEN D(-1, "no")
     ELSE IF rp[2] # s[2] \/ rp[2] = "" THEN D(-1, "yes")
     ELSE IF rp[2] = "L" THEN D(r, "no") ELSE D(-1, "no")

Table(G, A, mewa) ==
  LET L == LookAheads(G, A, mewa)
  IN TLCEval([k \in 1..Len(A.ker) |-> [t \in 0..G.nterm |-> Decide(G, A, L, k, t)]])

Verdict(T) ==
  LET C == {T[k][t].conflict : k \in DOMAIN T, t \in DOMAIN T[1]}
  IN IF "yes" \in C THEN "yes" ELSE IF "any" \in C THEN "any" ELSE "no"

\* tokens with an action in a state
Expected(T, k) == {t \in DOMAIN T[k] : T[k][t].act # 0}

---------------------------------------------------------------------------
(* The language, independent of any automaton: D[nt] is the set of pairs   *)
(* <<i,j>> such that nt derives the tokens i+1..j of the sentence w.       *)
RECURSIVE EndsOf(_, _, _, _)
EndsOf(q, S, D, w) ==
  IF q = << >> THEN S
  ELSE LET x == Head(q)
           S1 == IF IsNT(x) THEN {p[2] : p \in {y \in D[x] : y[1] \in S}}
                 ELSE {i + 1 : i \in {j \in S : j < Len(w) /\ w[j + 1] = x}}
       IN EndsOf(Tail(q), S1, D, w)
RECURSIVE SpanFix(_, _, _)
SpanFix(G, w, D) ==
  LET E == [nt \in DOMAIN D |->
              D[nt] \cup UNION {UNION {{<<i, j>> : j \in EndsOf(G.prods[k].r, {i}, D, w)} : i \in 0..Len(w)} : k \in ProdsOf(G, nt)}]
  IN IF TLCEval(E) = D THEN D ELSE SpanFix(G, w, TLCEval(E))
InLanguage(G, w) == <<0, Len(w)>> \in SpanFix(G, w, [nt \in Nonterminals(G) |-> {}])[G.prods[1].l]
===========================================================================
