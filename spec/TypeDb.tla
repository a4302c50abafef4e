------------------------------ MODULE TypeDb ------------------------------
(***************************************************************************)
(* Abstract specification of the mewa type database (mewa.typedb).         *)
(*                                                                         *)
(* The state is what a client has told the database: the scope cursor, the *)
(* scoped instances, the types with the name entries that reach them and   *)
(* the reductions.  There are no up-link lists, hash maps or path queues   *)
(* here: visibility is defined from the set of definitions and their scope *)
(* intervals, shortest paths from the set of all simple paths.             *)
(*                                                                         *)
(* Scopes are intervals [s,e) of scope-steps; every two scopes used are    *)
(* disjoint or nested (an environment assumption, the structure of a       *)
(* syntax tree).                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  cur,    \* current scope [s |-> start, e |-> end)
  step,   \* current scope-step
  inst,   \* set of [name, s, e, v]: instances, at most one per name and scope
  types,  \* function handle -> [s, e, ctx, name, ctor, pars]
  defs,   \* sequence of [s, e, ctx, name, t]: name entries in order of definition
  reds    \* sequence of [s, e, to, from, ctor, tag, w]: reductions in order of definition

vars == <<cur, step, inst, types, defs, reds>>

MaxStep == 2147483647
Nil == ""                       \* an undefined constructor or instance

Init ==
  /\ cur = [s |-> 0, e |-> MaxStep]
  /\ step = 0
  /\ inst = {}
  /\ types = << >>
  /\ defs = << >>
  /\ reds = << >>

---------------------------------------------------------------------------
(* Scopes *)

Covers(d, st) == d.s <= st /\ st < d.e
Inside(a, b) == b.s <= a.s /\ a.e <= b.e
SameScope(a, b) == a.s = b.s /\ a.e = b.e
\* of a set of nested scoped records covering one step: those in the innermost scope
Innermost(D) == {d \in D : \A x \in D : Inside(d, x)}

SeqToSet(q) == {q[k] : k \in 1..Len(q)}
Handles == DOMAIN types
Known(t) == t = 0 \/ t \in Handles

---------------------------------------------------------------------------
(* Queries: instances *)

VisibleInst(name, st) == Innermost({d \in inst : d.name = name /\ Covers(d, st)})
GetInstance(name, st) ==
  LET V == VisibleInst(name, st) IN IF V = {} THEN Nil ELSE (CHOOSE d \in V : TRUE).v
ThisInstance(name, sc) ==
  LET V == {d \in inst : d.name = name /\ SameScope(d, sc)}
  IN IF V = {} THEN Nil ELSE (CHOOSE d \in V : TRUE).v

---------------------------------------------------------------------------
(* Queries: types *)

ParTypes(pars) == [k \in 1..Len(pars) |-> pars[k].t]
EntriesAt(sc, ctx, name) ==
  {k \in 1..Len(defs) : SameScope(defs[k], sc) /\ defs[k].ctx = ctx /\ defs[k].name = name}
MatchingEntries(sc, ctx, name, ptypes) ==
  {k \in EntriesAt(sc, ctx, name) : ParTypes(types[defs[k].t].pars) = ptypes}
ThisTypes(sc, ctx, name) == {defs[k].t : k \in EntriesAt(sc, ctx, name)}

\* name entries of the innermost scope covering st that defines ctx.name
VisibleEntries(ctx, name, st) ==
  LET D == {k \in 1..Len(defs) : defs[k].ctx = ctx /\ defs[k].name = name /\ Covers(defs[k], st)}
  IN {k \in D : \A x \in D : Inside(defs[k], defs[x])}
VisibleTypes(ctx, name, st) == {defs[k].t : k \in VisibleEntries(ctx, name, st)}

RECURSIVE TypeString(_, _), ParString(_, _, _)
ParString(pars, k, sep) ==
  IF k > Len(pars) THEN ""
  ELSE (IF k > 1 THEN "," ELSE "") \o TypeString(pars[k].t, sep) \o ParString(pars, k + 1, sep)
TypeString(t, sep) ==
  IF t = 0 THEN ""
  ELSE LET r == types[t] IN
       (IF r.ctx = 0 THEN "" ELSE TypeString(r.ctx, sep) \o sep)
       \o r.name
       \o (IF r.pars = << >> THEN "" ELSE "(" \o ParString(r.pars, 1, sep) \o ")")

---------------------------------------------------------------------------
(* Queries: reductions *)

\* Index of the reduction from -> to seen at step st by a search restricted to the tags in mask,
\* 0 if there is none: innermost scope first, then order of definition.
RedIndex(from, to, st, mask) ==
  LET D == {k \in 1..Len(reds) : /\ reds[k].from = from /\ reds[k].to = to
                                 /\ reds[k].tag \in mask /\ Covers(reds[k], st)}
      I == {k \in D : \A x \in D : Inside(reds[k], reds[x])}
  IN IF I = {} THEN 0 ELSE CHOOSE k \in I : \A x \in I : k <= x
Targets(from, st, mask) ==
  {reds[k].to : k \in {x \in 1..Len(reds) : reds[x].from = from /\ reds[x].tag \in mask /\ Covers(reds[x], st)}}
\* the set of visible reductions leaving a type
Out(from, st, mask) == {RedIndex(from, to, st, mask) : to \in Targets(from, st, mask)}

\* A path is a sequence of reduction indices
PathTypes(p) == [k \in 1..Len(p) |-> reds[p[k]].to]
RECURSIVE Weight(_)
Weight(p) == IF p = << >> THEN 0 ELSE reds[Head(p)].w + Weight(Tail(p))
Counted(p, cmask) == Cardinality({k \in 1..Len(p) : reds[p[k]].tag \in cmask})

\* all paths of visible reductions from type t through types not in seen
RECURSIVE PathsFrom(_, _, _, _)
PathsFrom(t, seen, st, mask) ==
  {<< >>} \cup
  UNION {{<<k>> \o p : p \in PathsFrom(reds[k].to, seen \cup {reds[k].to}, st, mask)} :
            k \in {x \in Out(t, st, mask) : reds[x].to \notin seen}}
SimplePaths(t, st, mask) == PathsFrom(t, {t}, st, mask)
EndOf(t, p) == IF p = << >> THEN t ELSE reds[p[Len(p)]].to

MinWeight(P) == CHOOSE w \in {Weight(p) : p \in P} : \A q \in P : w <= Weight(q)
Lightest(P) == IF P = {} THEN {} ELSE LET m == MinWeight(P) IN {p \in P : Weight(p) = m}

\* the minimal paths of a derivation
Derivations(to, from, st, mask, cmask, max) ==
  Lightest({p \in SimplePaths(from, st, mask) : EndOf(from, p) = to /\ (max < 0 \/ Counted(p, cmask) <= max)})

\* the minimal paths of a name resolution: records [start, p]; starts is the set of context types
Resolutions(starts, name, st, mask) ==
  LET C == UNION {{[start |-> t, p |-> p] : p \in {q \in SimplePaths(t, st, mask) :
                                                      VisibleEntries(EndOf(t, q), name, st) # {}}} : t \in starts}
      m == CHOOSE w \in {Weight(c.p) : c \in C} : \A x \in C : w <= Weight(x.p)
  IN IF C = {} THEN {} ELSE {c \in C : Weight(c.p) = m}

\* what applying a path means to the client: the types reached and the constructors to apply
Applied(p) == [k \in 1..Len(p) |-> [t |-> reds[p[k]].to, c |-> reds[p[k]].ctor]]

---------------------------------------------------------------------------
(* Updates *)

SetScope(s, e, st) == /\ cur' = [s |-> s, e |-> e] /\ step' = st
                      /\ UNCHANGED <<inst, types, defs, reds>>
SetStep(st) == step' = st /\ UNCHANGED <<cur, inst, types, defs, reds>>

SetInstance(name, v) ==
  /\ inst' = {d \in inst : ~(d.name = name /\ SameScope(d, cur))}
             \cup {[name |-> name, s |-> cur.s, e |-> cur.e, v |-> v]}
  /\ UNCHANGED <<cur, step, types, defs, reds>>

\* a new type gets the handle h, which no other type has
DefType(h, ctx, name, ctor, pars) ==
  /\ MatchingEntries(cur, ctx, name, ParTypes(pars)) = {}
  /\ h > 0 /\ h \notin Handles
  /\ types' = (h :> [s |-> cur.s, e |-> cur.e, ctx |-> ctx, name |-> name, ctor |-> ctor, pars |-> pars]) @@ types
  /\ defs' = Append(defs, [s |-> cur.s, e |-> cur.e, ctx |-> ctx, name |-> name, t |-> h])
  /\ UNCHANGED <<cur, step, inst, reds>>
DefTypeAs(ctx, name, t) ==
  /\ EntriesAt(cur, ctx, name) = {}
  /\ defs' = Append(defs, [s |-> cur.s, e |-> cur.e, ctx |-> ctx, name |-> name, t |-> t])
  /\ UNCHANGED <<cur, step, inst, types, reds>>

DuplicateReds(to, from, tag) ==
  {k \in 1..Len(reds) : SameScope(reds[k], cur) /\ reds[k].to = to /\ reds[k].from = from /\ reds[k].tag = tag}
DefReduction(to, from, ctor, tag, w) ==
  /\ DuplicateReds(to, from, tag) = {}
  /\ reds' = Append(reds, [s |-> cur.s, e |-> cur.e, to |-> to, from |-> from, ctor |-> ctor, tag |-> tag, w |-> w])
  /\ UNCHANGED <<cur, step, inst, types, defs>>

---------------------------------------------------------------------------
(* Introspection trees: a set of nodes [s, e, ps, pe, val]; [ps,pe) is the scope of the parent node.       *)
(* The root is [0,MaxStep) whether or not something is defined there; the parent of a node is the innermost *)
(* of the other scopes that contain it.                                                                    *)

Root == [s |-> 0, e |-> MaxStep]
TreeScopes(D) == {[s |-> d.s, e |-> d.e] : d \in D} \cup {Root}
ParentScope(sc, S) ==
  LET C == {x \in S : x # sc /\ Inside(sc, x)} IN CHOOSE x \in C : \A y \in C : Inside(x, y)
TreeOf(D, Val(_)) ==
  LET S == TreeScopes(D) IN
  {[s |-> sc.s, e |-> sc.e,
    ps |-> IF sc = Root THEN -1 ELSE ParentScope(sc, S).s,
    pe |-> IF sc = Root THEN -1 ELSE ParentScope(sc, S).e,
    val |-> Val(sc)] : sc \in S}

InstanceTree(name) ==
  LET V(sc) == ThisInstance(name, sc) IN TreeOf({d \in inst : d.name = name}, V)
At(seq, sc) == SelectSeq(seq, LAMBDA d : SameScope(d, sc))
SeqToBag(q) == [x \in SeqToSet(q) |-> Cardinality({k \in 1..Len(q) : q[k] = x})]
TypeTree ==
  LET V(sc) == SeqToBag([k \in 1..Len(At(defs, sc)) |-> At(defs, sc)[k].t]) IN TreeOf(SeqToSet(defs), V)
ReductionTree ==
  LET V(sc) == SeqToBag([k \in 1..Len(At(reds, sc)) |->
                          LET r == At(reds, sc)[k]
                          IN [to |-> r.to, from |-> r.from, ctor |-> r.ctor, tag |-> r.tag, w |-> r.w]])
  IN TreeOf(SeqToSet(reds), V)
===========================================================================
