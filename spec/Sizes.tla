------------------------------- MODULE Sizes -------------------------------
(***************************************************************************)
(* Families of grammars and sources of any size, with the tree the         *)
(* compiler builds for them in closed form.                                *)
(*                                                                         *)
(* A case names a family f, the size k of the grammar, the size n of the   *)
(* source and how many words stand on a line.  Grammar(q), Words(q) and    *)
(* Outcome(q) are defined for all sizes; the tree is given as its walk in  *)
(* pre-order, one row <<depth, name, value, line, kind, s1, s2>> for each   *)
(* node.  Fits(q) says whether the grammar is within the limits of the     *)
(* generator.  For small sizes the closed forms are checked against the    *)
(* parser of LrMachine.tla (the same observations have to agree with both);*)
(* for all sizes they are compared with what the real compiler does.       *)
(*                                                                         *)
(* With REQUESTS the module writes grammars and words of the cases, with   *)
(* CASES it compares observations.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

S(x) == ToString(x)
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE IF n = 1 THEN s
             ELSE LET h == Rep(s, n \div 2) IN IF n % 2 = 0 THEN h \o h ELSE h \o h \o s

\* ---- grammars: lexemes [n, pat], productions
Lx(n, p) == [n |-> n, pat |-> p]
NUM == Lx("NUM", "[0-9]+")
ID == Lx("ID", "[a-z]+")
P(l, r, call, arg) == [l |-> l, r |-> r, call |-> call, arg |-> arg, sf |-> "", pr |-> ""]
PS(l, r, call, sf) == [l |-> l, r |-> r, call |-> call, arg |-> "", sf |-> sf, pr |-> ""]
PP(l, r, call, arg, pr) == [l |-> l, r |-> r, call |-> call, arg |-> arg, sf |-> "", pr |-> pr]
K(x) == <<"kw", x>>   \* keyword
N(x) == <<"", x>>     \* nonterminal or lexeme
List == <<P("S", <<N("L")>>, "root", ""), P("L", <<N("L"), N("E")>>, "", ""), P("L", <<N("E")>>, "", "")>>
Last(k, i) == (i * 7) % k

\* The family states: k is the number of LR(0) states; four are those of the lists, one for each prefix of the other right sides
Full(q) == (q.k - 4) \div 9
Part(q) == (q.k - 4) % 9
Pattern(i) == <<K("a" \o S(i - 1)), K("b"), N("NUM"), K("b"), K("b"), K("b"), N("NUM"), K("b"), K("b")>>

Grammar(q) ==
  LET k == q.k
      f == q.f
  IN CASE f = "flat" -> [lex |-> <<NUM>>, prods |-> List \o [i \in 1..k |-> P("E", <<K("k" \o S(i - 1))>>, "f", S(i - 1))]]
       [] f = "flaterr" -> [lex |-> <<NUM>>, prods |-> List \o [i \in 1..k |-> P("E", <<K("k" \o S(i - 1))>>, "f", S(i - 1))]]
       [] f = "lex" -> [lex |-> [i \in 1..k |-> Lx("T" \o S(i - 1), "t" \o S(i - 1))], prods |-> List \o [i \in 1..k |-> P("E", <<N("T" \o S(i - 1))>>, "f", S(i - 1))]]
       [] f = "nest" -> [lex |-> <<NUM>>, prods |-> <<P("S", <<N("E")>>, "root", ""), P("E", <<K("("), N("E"), K(")")>>, "nest", ""), P("E", <<N("NUM")>>, "num", "")>>]
       [] f = "scopes" -> [lex |-> <<NUM>>, prods |-> <<P("S", <<N("E")>>, "root", ""), PS("E", <<K("{"), N("C"), N("E"), K("}")>>, "block", "{}"),
                                                        PS("C", <<N("NUM")>>, "decl", ">>"), PS("E", <<N("NUM")>>, "num", ">>")>>]
       [] f = "right" -> [lex |-> <<NUM>>, prods |-> <<P("S", <<N("L")>>, "root", ""), P("L", <<N("NUM"), N("L")>>, "cons", ""), P("L", << >>, "", "")>>]
       [] f = "left" -> [lex |-> <<NUM>>, prods |-> <<P("S", <<N("L")>>, "root", ""), P("L", <<N("L"), N("NUM")>>, "snoc", ""), P("L", << >>, "", "")>>]
       [] f = "wide" -> [lex |-> <<NUM>>, prods |-> <<P("S", <<N("L")>>, "root", ""), P("L", <<N("L"), N("NUM")>>, "", ""), P("L", << >>, "", "")>>]
       [] f = "long" -> [lex |-> <<NUM>>, prods |-> List \o <<P("E", [i \in 1..k |-> IF i % 3 = 0 THEN K("x") ELSE N("NUM")], "f", "")>>]
       [] f = "chain" -> [lex |-> <<NUM>>, prods |-> <<P("S", <<N("L")>>, "root", ""), P("L", <<N("L"), N("N0")>>, "", ""), P("L", <<N("N0")>>, "", "")>>
                                                      \o [i \in 1..k |-> P("N" \o S(i - 1), <<N("N" \o S(i))>>, "f", S(i - 1))] \o <<P("N" \o S(k), <<N("NUM")>>, "num", "")>>]
       [] f = "states" -> [lex |-> <<NUM>>, prods |-> List \o [i \in 1..(Full(q) + (IF Part(q) = 0 THEN 0 ELSE 1)) |->
                                                              P("E", IF i <= Full(q) THEN Pattern(i) ELSE SubSeq(Pattern(i), 1, Part(q)), "f", S(i - 1))]]
       [] f = "follow" -> [lex |-> <<NUM>>, prods |-> List \o [i \in 1..k |-> P("E", <<K("a" \o S(i - 1)), N("X"), K("b" \o S(i - 1))>>, "f", S(i - 1))] \o <<P("X", <<N("NUM")>>, "num", "")>>]
       [] f = "followerr" -> [lex |-> <<NUM>>, prods |-> List \o [i \in 1..k |-> P("E", <<K("a" \o S(i - 1)), N("X"), K("b" \o S(i - 1))>>, "f", S(i - 1))] \o <<P("X", <<N("NUM")>>, "num", "")>>]
       [] f = "words" -> [lex |-> <<NUM>>, prods |-> List \o [i \in 1..k |-> P("E", [j \in 1..10 |-> K("w" \o S(i - 1) \o "_" \o S(j))], "f", S(i - 1))]]
       [] f = "prio" -> [lex |-> <<NUM>>, prods |-> <<P("S", <<N("E")>>, "root", ""), P("E", <<N("NUM")>>, "num", "")>>
                                                   \o [i \in 1..k |-> PP("E", <<N("E"), K("o" \o S(i)), N("E")>>, "f", S(i), (IF i % 2 = 0 THEN "L" ELSE "R") \o S(i))]]
       [] f = "comment" -> [lex |-> <<NUM>>, prods |-> List \o <<P("E", <<N("NUM")>>, "num", "")>>]
       [] f = "token" -> [lex |-> <<NUM, ID>>, prods |-> List \o <<P("E", <<N("ID")>>, "f", ""), P("E", <<N("NUM")>>, "num", "")>>]

\* ---- sources: words; the number of the operator of the family prio at place i
Op(q, i) == IF q.n = 1 THEN i ELSE q.k + 1 - i
Words(q) ==
  LET k == q.k
      f == q.f
      n == q.n
  IN CASE f = "flat" -> [i \in 1..n |-> "k" \o S(Last(k, i))]
       [] f = "flaterr" -> [i \in 1..(n + 2) |-> IF i = n + 1 THEN "7" ELSE "k" \o S(Last(k, i))]
       [] f = "lex" -> [i \in 1..n |-> "t" \o S(Last(k, i))]
       [] f = "nest" -> [i \in 1..(2 * n + 1) |-> IF i <= n THEN "(" ELSE IF i = n + 1 THEN "1" ELSE ")"]
       [] f = "scopes" -> [i \in 1..(3 * n + 1) |-> IF i > 2 * n + 1 THEN "}" ELSE IF i % 2 = 1 /\ i <= 2 * n THEN "{" ELSE S(i)]
       [] f \in {"right", "left", "wide", "chain"} -> [i \in 1..n |-> S(i)]
       [] f = "long" -> [i \in 1..(n * k) |-> IF (((i - 1) % k) + 1) % 3 = 0 THEN "x" ELSE S(i)]
       [] f = "states" -> [i \in 1..(n * 9) |-> LET j == (i - 1) \div 9 + 1
                                                    o == (i - 1) % 9
                                                IN IF o = 0 THEN "a" \o S(Last(Full(q), j)) ELSE IF o = 2 \/ o = 6 THEN S(i) ELSE "b"]
       [] f \in {"follow", "followerr"} ->
            [i \in 1..(n * 3) |-> LET g == (i - 1) \div 3 + 1
                                      o == (i - 1) % 3
                                  IN IF o = 1 THEN S(i) ELSE IF o = 0 THEN "a" \o S(Last(k, g))
                                     ELSE "b" \o S(IF f = "followerr" /\ g = n THEN (Last(k, g) + 1) % k ELSE Last(k, g))]
       [] f = "words" -> [i \in 1..(n * 10) |-> "w" \o S(Last(k, (i - 1) \div 10 + 1)) \o "_" \o S(((i - 1) % 10) + 1)]
       [] f = "prio" -> [i \in 1..(2 * k + 1) |-> IF i % 2 = 1 THEN S(i) ELSE "o" \o S(Op(q, i \div 2))]
       [] f = "comment" -> <<"1", "/*" \o Rep("c", n) \o "*/", "2", "//" \o Rep("c", n), "3">>
       [] f = "token" -> <<Rep("x", n), Rep("7", n), "y">>

\* word i stands on line Line(q, i); the end of the source on the line of the last word
Line(q, i) == 1 + ((i - 1) * q.num) \div q.den

\* ---- trees
Leaf(q, d, name, i) == <<d, name, Words(q)[i], Line(q, i), "", 0, 0>>
LeafV(q, d, name, v, i) == <<d, name, v, Line(q, i), "", 0, 0>>
Node(d, name, v, line) == <<d, name, v, line, "step", 0, 0>>
RootNode(line) == Node(1, "root", "nil", line)
Arg(x) == "\"" \o S(x) \o "\""

Walk(q) ==
  LET k == q.k
      f == q.f
      n == q.n
      L(i) == Line(q, i)
  IN CASE f = "flat" -> <<RootNode(0)>> \o [i \in 1..n |-> Node(2, "f", Arg(Last(k, i)), 0)]
       [] f = "lex" -> <<RootNode(L(n))>> \o [j \in 1..(2 * n) |-> LET i == (j + 1) \div 2
                                                                       t == S(Last(k, i))
                                                                   IN IF j % 2 = 1 THEN Node(2, "f", Arg(Last(k, i)), L(i)) ELSE LeafV(q, 3, "T" \o t, "t" \o t, i)]
       [] f = "nest" -> <<RootNode(L(n + 1))>> \o [i \in 1..n |-> Node(i + 1, "nest", "nil", L(n + 1))]
                        \o <<Node(n + 2, "num", "nil", L(n + 1)), LeafV(q, n + 3, "NUM", "1", n + 1)>>
       [] f = "scopes" -> LET m == 2 * n + 1 IN
                          <<<<1, "root", "nil", L(m), "step", 2 * n + 1, 0>>>>
                          \o [j \in 1..(3 * n) |->
                                LET i == (j + 2) \div 3
                                IN IF j % 3 = 1 THEN <<i + 1, "block", "nil", L(m), "scope", i - 1, 2 * n + 2 - i>>
                                   ELSE IF j % 3 = 2 THEN <<i + 2, "decl", "nil", L(2 * i), "step", i, 0>>
                                   ELSE LeafV(q, i + 3, "NUM", S(2 * i), 2 * i)]
                          \o <<<<n + 2, "num", "nil", L(m), "step", n + 1, 0>>, LeafV(q, n + 3, "NUM", S(m), m)>>
       [] f = "right" -> <<RootNode(IF n = 0 THEN 0 ELSE L(n))>>
                         \o [j \in 1..(2 * n) |-> LET i == (j + 1) \div 2
                                                  IN IF j % 2 = 1 THEN Node(i + 1, "cons", "nil", L(n)) ELSE LeafV(q, i + 2, "NUM", S(i), i)]
       [] f = "left" -> <<RootNode(IF n = 0 THEN 0 ELSE L(n))>> \o [j \in 1..n |-> Node(j + 1, "snoc", "nil", L(n + 1 - j))]
                        \o [i \in 1..n |-> LeafV(q, n + 3 - i, "NUM", S(i), i)]
       [] f = "wide" -> <<RootNode(IF n = 0 THEN 0 ELSE L(n))>> \o [i \in 1..n |-> LeafV(q, 2, "NUM", S(i), i)]
       [] f = "long" -> LET m == k - k \div 3                       \* lexemes of a production
                            at(j) == j + (j - 1) \div 2             \* place of its j-th lexeme
                            w(g, j) == (g - 1) * k + at(j)          \* word of it in group g
                        IN <<RootNode(L(w(n, m)))>>
                           \o [j \in 1..(n * (m + 1)) |-> LET g == (j - 1) \div (m + 1) + 1
                                                              o == (j - 1) % (m + 1)
                                                          IN IF o = 0 THEN Node(2, "f", "nil", L(w(g, m))) ELSE LeafV(q, 3, "NUM", S(w(g, o)), w(g, o))]
       [] f = "chain" -> <<RootNode(L(n))>>
                         \o [j \in 1..(n * (k + 2)) |-> LET g == (j - 1) \div (k + 2) + 1
                                                            o == (j - 1) % (k + 2)
                                                        IN IF o < k THEN Node(o + 2, "f", Arg(o), L(g)) ELSE IF o = k THEN Node(k + 2, "num", "nil", L(g))
                                                           ELSE LeafV(q, k + 3, "NUM", S(g), g)]
       [] f = "states" -> <<RootNode(L(9 * n - 2))>>
                          \o [j \in 1..(3 * n) |-> LET g == (j - 1) \div 3 + 1
                                                       o == (j - 1) % 3
                                                       w == 9 * (g - 1) + (IF o = 1 THEN 3 ELSE 7)
                                                   IN IF o = 0 THEN Node(2, "f", Arg(Last(Full(q), g)), L(w)) ELSE LeafV(q, 3, "NUM", S(w), w)]
       [] f = "follow" -> <<RootNode(L(3 * n - 1))>>
                          \o [j \in 1..(3 * n) |-> LET g == (j - 1) \div 3 + 1
                                                       o == (j - 1) % 3
                                                       w == 3 * g - 1
                                                   IN IF o = 0 THEN Node(2, "f", Arg(Last(k, g)), L(w)) ELSE IF o = 1 THEN Node(3, "num", "nil", L(w)) ELSE LeafV(q, 4, "NUM", S(w), w)]
       [] f = "words" -> <<RootNode(0)>> \o [i \in 1..n |-> Node(2, "f", Arg(Last(k, i)), 0)]
       [] f = "prio" ->
            IF n = 1  \* weakest first: every right operand is the rest
            THEN <<RootNode(L(2 * k + 1))>>
                 \o [j \in 1..(3 * k) |-> LET i == (j - 1) \div 3 + 1
                                              o == (j - 1) % 3
                                          IN IF o = 0 THEN Node(i + 1, "f", Arg(i), L(2 * k + 1))
                                             ELSE IF o = 1 THEN Node(i + 2, "num", "nil", L(2 * i - 1)) ELSE LeafV(q, i + 3, "NUM", S(2 * i - 1), 2 * i - 1)]
                 \o <<Node(k + 2, "num", "nil", L(2 * k + 1)), LeafV(q, k + 3, "NUM", S(2 * k + 1), 2 * k + 1)>>
            ELSE \* strongest first: every left operand is what came before
                 <<RootNode(L(2 * k + 1))>> \o [i \in 1..k |-> Node(i + 1, "f", Arg(i), L(2 * (k + 1 - i) + 1))]
                 \o <<Node(k + 2, "num", "nil", L(1)), LeafV(q, k + 3, "NUM", "1", 1)>>
                 \o [j \in 1..(2 * k) |-> LET i == (j + 1) \div 2      \* right operand of the i-th operator
                                              w == 2 * i + 1
                                          IN IF j % 2 = 1 THEN Node(k + 3 - i, "num", "nil", L(w)) ELSE LeafV(q, k + 4 - i, "NUM", S(w), w)]
       [] f = "token" -> <<RootNode(L(3)), Node(2, "f", "nil", L(1)), LeafV(q, 3, "ID", Rep("x", n), 1), Node(2, "num", "nil", L(2)), LeafV(q, 3, "NUM", Rep("7", n), 2),
                           Node(2, "f", "nil", L(3)), LeafV(q, 3, "ID", "y", 3)>>
       [] f = "comment" -> <<RootNode(L(5)), Node(2, "num", "nil", L(1)), LeafV(q, 3, "NUM", "1", 1), Node(2, "num", "nil", L(3)), LeafV(q, 3, "NUM", "2", 3),
                             Node(2, "num", "nil", L(5)), LeafV(q, 3, "NUM", "3", 5)>>
       [] OTHER -> << >>

Quoted(x) == "'" \o x
\* sources of the family flaterr end with an error at word n + 1
Outcome(q) ==
  IF q.f = "flaterr"
  THEN [st |-> "error", rows |-> << >>, line |-> Line(q, q.n + 1), tok |-> "NUM = \"7\"",
        exp |-> {Quoted("k" \o S(i - 1)) : i \in 1..q.k} \cup (IF q.n = 0 THEN {} ELSE {"$"})]
  ELSE IF q.f = "followerr"  \* the wrong one of the closing words
  THEN [st |-> "error", rows |-> << >>, line |-> Line(q, 3 * q.n), tok |-> Quoted(Words(q)[3 * q.n]), exp |-> {Quoted("b" \o S(Last(q.k, q.n)))}]
  ELSE [st |-> "accept", rows |-> Walk(q), line |-> 0, tok |-> "", exp |-> {}]

\* ---- limits of the generator
MaxProductions == 511
MaxTerminals == 1023
MaxNonterminals == 255
MaxLength == 15
MaxPriority == 31
MaxStates == 4095
Ids(q) == [prods |-> Len(Grammar(q).prods),
           len |-> LET R == {Len(p.r) : p \in {Grammar(q).prods[i] : i \in 1..Len(Grammar(q).prods)}} IN CHOOSE m \in R : \A x \in R : x <= m,
           nonterm |-> Cardinality({Grammar(q).prods[i].l : i \in 1..Len(Grammar(q).prods)}),
           term |-> Len(Grammar(q).lex) + Cardinality(UNION {{p.r[j][2] : j \in {x \in 1..Len(p.r) : p.r[x][1] = "kw"}} :
                                                            p \in {Grammar(q).prods[i] : i \in 1..Len(Grammar(q).prods)}}),
           prio |-> IF q.f = "prio" THEN q.k ELSE 0,
           \* LR(0) states of the family that can have many
           states |-> IF q.f = "states" THEN q.k ELSE 0]
\* the number of the error the generator reports, 0 for none
Verdict(q) ==
  LET s == Ids(q)
  IN IF s.prio > MaxPriority THEN 574
     ELSE IF s.nonterm > MaxNonterminals THEN 575
     ELSE IF s.prods > MaxProductions THEN 572
     ELSE IF s.term > MaxTerminals THEN 576
     ELSE IF s.len > MaxLength THEN 573
     ELSE IF s.states > MaxStates THEN 571
     ELSE 0

\* ---- requests and checks
Mode == IF "REQUESTS" \in DOMAIN IOEnv THEN "write" ELSE "check"
Requests == IF Mode = "write" THEN JsonDeserialize(IOEnv.REQUESTS) ELSE << >>
Cases == IF Mode = "check" THEN ndJsonDeserialize(IOEnv.CASES) ELSE << >>
ASSUME Mode = "write" =>
         JsonSerialize(IOEnv.OUT, [i \in 1..Len(Requests) |->
            LET q == Requests[i]
                w == Words(q)
            IN [g |-> Grammar(q), verdict |-> Verdict(q), words |-> [j \in 1..Len(w) |-> <<w[j], Line(q, j)>>]]])

VARIABLE c
Report(what, got, want) == PrintT("MISMATCH " \o ToJson([case |-> c - 1, what |-> what, got |-> got, want |-> want]))
Row(rows, i) == IF i <= Len(rows) THEN rows[i] ELSE << >>
FirstDifference(a, b) == CHOOSE i \in 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) :
                            Row(a, i) # Row(b, i) /\ \A j \in 1..(i - 1) : Row(a, j) = Row(b, j)
CheckCase(q) ==
  LET v == Verdict(q)
  IN IF q.obs.gen # v THEN Report("generator ends with another error", q.obs.gen, v)
     ELSE IF v # 0 THEN TRUE
     ELSE LET e == Outcome(q)
              r == q.obs.rows
          IN IF q.obs.st # e.st THEN Report("compiler ends differently", <<q.obs.st, q.obs.tok>>, e.st)
             ELSE IF r # e.rows
             THEN LET i == FirstDifference(r, e.rows) IN Report("row " \o S(i) \o " of the tree differs", Row(r, i), Row(e.rows, i))
             ELSE IF e.st = "error" /\ (q.obs.line # e.line \/ q.obs.tok # e.tok)
             THEN Report("syntax error differs", <<q.obs.line, q.obs.tok>>, <<e.line, e.tok>>)
             ELSE IF {q.obs.exp[i] : i \in 1..Len(q.obs.exp)} # e.exp
             THEN Report("expected tokens differ", Len(q.obs.exp), Cardinality(e.exp))
             ELSE TRUE

Init == c = 1
Next == /\ c <= Len(Cases)
        /\ CheckCase(Cases[c])
        /\ PrintT("DONE " \o ToJson([case |-> c - 1]))
        /\ c' = c + 1
Spec == Init /\ [][Next]_c
=============================================================================
