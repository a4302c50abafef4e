---------------------------- MODULE TypeDbHist ----------------------------
(***************************************************************************)
(* Exhaustive small model of the type database.                            *)
(*                                                                         *)
(* TLC enumerates every family of nested-or-disjoint scopes over the       *)
(* points 0..MaxPoint and every history of updates of one kind made in     *)
(* those scopes, checks the properties below in every state, and prints    *)
(* every history, which is then replayed into the real module with all     *)
(* queries after every update (the recorded answers are checked against    *)
(* TraceTypeDb).                                                           *)
(***************************************************************************)
EXTENDS TypeDb, Json

CONSTANTS Kind,        \* which updates: "inst", "type", "redu", "graph"
          Depth,       \* number of updates of a history
          MaxPoint,    \* scope end points are in 0..MaxPoint
          NumScopes    \* number of scopes besides the root scope

VARIABLES fam, pending, hist
hvars == <<vars, fam, pending, hist>>

Intervals == {[s |-> a, e |-> b] : a \in 0..(MaxPoint - 1), b \in 1..MaxPoint}
NonEmpty == {x \in Intervals : x.s < x.e}
NestedOrDisjoint(a, b) == Inside(a, b) \/ Inside(b, a) \/ a.e <= b.s \/ b.e <= a.s
RECURSIVE Laminar(_)
Laminar(n) == IF n = 0 THEN {{}}
              ELSE UNION {{F \cup {x} : x \in {y \in NonEmpty \ F : \A z \in F : NestedOrDisjoint(y, z)}} : F \in Laminar(n - 1)}
RootScope == [s |-> 0, e |-> MaxStep]

\* a fixed set of types to relate with reductions
NofTypes == IF Kind = "graph" THEN 3 ELSE IF Kind = "redu" THEN 3 ELSE IF Kind = "type" THEN 1 ELSE 0
TypeNames == <<"a", "b", "c", "d">>
InitTypes == [h \in 1..NofTypes |-> [s |-> 0, e |-> MaxStep, ctx |-> 0, name |-> TypeNames[h], ctor |-> "", pars |-> << >>]]
InitDefs == [h \in 1..NofTypes |-> [s |-> 0, e |-> MaxStep, ctx |-> 0, name |-> TypeNames[h], t |-> h]]

None == [k |-> "none"]
Edges == {p \in (1..NofTypes) \X (1..NofTypes) : p[1] # p[2]}
Alphabet ==
  CASE Kind = "inst" -> {[k |-> "set_instance", sc |-> f, name |-> "a"] : f \in fam}
    [] Kind = "type" ->
         {[k |-> "def_type", sc |-> f, name |-> "x", pars |-> p] : f \in fam, p \in {<< >>, <<1>>}}
         \cup {[k |-> "def_type_as", sc |-> f, name |-> n, t |-> 1] : f \in fam, n \in {"x"}}
    [] Kind = "redu" -> {[k |-> "def_reduction", sc |-> f, from |-> 1, to |-> p[1], tag |-> p[2], w |-> 64] :
                            f \in fam, p \in {<<2, 1>>, <<2, 2>>, <<3, 1>>}}
    [] Kind = "graph" -> {[k |-> "def_reduction", sc |-> f, from |-> p[1], to |-> p[2], tag |-> q[1], w |-> q[2]] :
                            f \in fam, p \in Edges, q \in {<<1, 32>>, <<1, 64>>, <<2, 32>>}}

\* a graph is a set of edges: generate each set once, in the order of its edges
Rank(o) == ((o.from * 8 + o.to) * 4 + o.tag) * 256 + o.w
InOrder(o) == IF Kind # "graph" THEN TRUE ELSE IF hist = << >> THEN TRUE ELSE Rank(hist[Len(hist)]) < Rank(o)

HInit == /\ Init /\ fam \in {F \cup {RootScope} : F \in Laminar(NumScopes)}
         /\ pending = None /\ hist = << >>
HInitTyped == /\ cur = RootScope /\ step = 0 /\ inst = {} /\ reds = << >>
              /\ types = InitTypes /\ defs = InitDefs
              /\ fam \in {F \cup {RootScope} : F \in Laminar(NumScopes)}
              /\ pending = None /\ hist = << >>

EnterScope ==
  /\ pending = None /\ Len(hist) < Depth
  /\ \E o \in Alphabet : InOrder(o) /\ SetScope(o.sc.s, o.sc.e, o.sc.e - 1) /\ pending' = o
  /\ UNCHANGED <<fam, hist>>

\* values and handles are chosen fresh, as the implementation and the replay do
Value == "n:" \o ToString(Len(hist) + 1)
Rejected == UNCHANGED vars
Update ==
  /\ pending # None
  /\ LET o == pending IN
     CASE o.k = "set_instance" -> SetInstance(o.name, Value)
       [] o.k = "def_type" ->
            LET P == [x \in 1..Len(o.pars) |-> [t |-> o.pars[x], c |-> ""]]
            IN IF MatchingEntries(cur, 0, o.name, o.pars) = {}
               THEN DefType(Cardinality(Handles) + 1, 0, o.name, Value, P) ELSE Rejected
       [] o.k = "def_type_as" -> IF EntriesAt(cur, 0, o.name) = {} THEN DefTypeAs(0, o.name, o.t) ELSE Rejected
       [] o.k = "def_reduction" ->
            IF DuplicateReds(o.to, o.from, o.tag) = {} THEN DefReduction(o.to, o.from, Value, o.tag, o.w) ELSE Rejected
  /\ hist' = Append(hist, pending) /\ pending' = None /\ UNCHANGED fam

HNext == EnterScope \/ Update
HSpec == HInitTyped /\ [][HNext]_hvars

\* prints every complete history once
Emit == (pending = None /\ Len(hist) = Depth) => PrintT("HIST " \o ToJson([hist |-> hist, fam |-> fam]))

---------------------------------------------------------------------------
Steps == 0..MaxPoint
Len2(d) == d.e - d.s
AllTags == {1, 2, 3, 4}

\* C01: what a lookup returns is unique and is the instance of the smallest scope covering the step
InstanceLookup ==
  /\ \A x, y \in inst : x.name = y.name /\ SameScope(x, y) => x = y
  /\ \A st \in Steps : \A n \in {"a"} :
       LET C == {d \in inst : d.name = n /\ Covers(d, st)}
       IN IF C = {} THEN GetInstance(n, st) = Nil
          ELSE \E d \in C : GetInstance(n, st) = d.v /\ \A x \in C : Len2(d) <= Len2(x)
  /\ \A f \in fam : \A n \in {"a"} :
       ThisInstance(n, f) # Nil <=> \E d \in inst : d.name = n /\ SameScope(d, f)

\* C02: one type per scope, context, name and parameter list, a handle means one type
TypeIdentity ==
  /\ \A j, k \in 1..Len(defs) : j # k =>
       ~(SameScope(defs[j], defs[k]) /\ defs[j].ctx = defs[k].ctx /\ defs[j].name = defs[k].name
         /\ ParTypes(types[defs[j].t].pars) = ParTypes(types[defs[k].t].pars))
  /\ \A h \in Handles : \E k \in 1..Len(defs) : defs[k].t = h
HandlesForever == [][\A h \in Handles : h \in DOMAIN types' /\ types'[h] = types[h]]_hvars
EntriesForever == [][Len(defs') >= Len(defs) /\ SubSeq(defs', 1, Len(defs)) = defs
                     /\ Len(reds') >= Len(reds) /\ SubSeq(reds', 1, Len(reds)) = reds]_hvars
\* C02: definitions outside a scope never change what is visible in it, and inner definitions hide outer ones
Hiding ==
  \A st \in Steps : \A k \in VisibleEntries(0, "x", st) :
     ~\E x \in 1..Len(defs) : defs[x].name = "x" /\ Covers(defs[x], st) /\ Len2(defs[x]) < Len2(defs[k])

\* C03: a visible reduction covers the step, matches, and nothing nearer or earlier does
ReductionVisibility ==
  \A st \in Steps : \A a, b \in Handles : \A m \in {{1}, {2}, {1, 2}} :
     LET k == RedIndex(a, b, st, m) IN
     IF k = 0 THEN ~\E x \in 1..Len(reds) : reds[x].from = a /\ reds[x].to = b /\ reds[x].tag \in m /\ Covers(reds[x], st)
     ELSE /\ Covers(reds[k], st) /\ reds[k].tag \in m
          /\ ~\E x \in 1..Len(reds) : /\ reds[x].from = a /\ reds[x].to = b /\ reds[x].tag \in m /\ Covers(reds[x], st)
                                       /\ (Len2(reds[x]) < Len2(reds[k]) \/ (SameScope(reds[x], reds[k]) /\ x < k))

\* C04: the weight found by enumerating simple paths is the Bellman-Ford distance
INF == 1000000
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Relax(_, _, _, _)
Relax(D, n, st, m) ==
  IF n = 0 THEN D
  ELSE LET E == {k \in 1..Len(reds) : k = RedIndex(reds[k].from, reds[k].to, st, m)}
           Into(t) == {D[reds[k].from] + reds[k].w : k \in {x \in E : reds[x].to = t}} \cup {D[t]}
       IN Relax([t \in Handles |-> CHOOSE w \in Into(t) : \A v \in Into(t) : w <= v], n - 1, st, m)
Dist(a, st, m) == Relax([t \in Handles |-> IF t = a THEN 0 ELSE INF], Cardinality(Handles), st, m)
ShortestPaths ==
  (Kind = "graph" /\ pending = None) =>
  \A st \in {0} : \A m \in {{1}, {1, 2}} : \A a \in Handles :
     LET D == Dist(a, st, m) IN
     \A b \in Handles :
        LET P == Derivations(b, a, st, m, {}, -1) IN
        IF D[b] >= INF THEN P = {} ELSE P # {} /\ \A p \in P : Weight(p) = D[b]

\* C07: the trees list every scope with a definition, children lie strictly inside their parent
ProperTree(T) ==
  \A n \in T : (n.s = 0 /\ n.e = MaxStep) \/
        /\ \E p \in T : p.s = n.ps /\ p.e = n.pe
        /\ n.ps <= n.s /\ n.e <= n.pe /\ ~(n.ps = n.s /\ n.pe = n.e)
TreesAreTrees == ProperTree(InstanceTree("a")) /\ ProperTree(TypeTree) /\ ProperTree(ReductionTree)
===========================================================================
