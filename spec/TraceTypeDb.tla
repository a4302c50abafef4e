---------------------------- MODULE TraceTypeDb ----------------------------
(***************************************************************************)
(* Trace specification: the events recorded from the real type database    *)
(* (one JSON object per line) have to be a behaviour of TypeDb.            *)
(***************************************************************************)
EXTENDS TypeDb, Json, IOUtils

VARIABLES i,         \* next event
          kept       \* trees got before, to be shown later
tvars == <<vars, i, kept>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

AllTags == 1..32
Mask(ev) == IF ev.all THEN AllTags ELSE SeqToSet(ev.tags)
NoChange == UNCHANGED vars
Ok(ev) == ev.ok
Fails(ev) == ~ev.ok /\ NoChange
AllKnown(q) == \A k \in 1..Len(q) : Known(q[k])

ScopeGet(ev) == Ok(ev) /\ ev.rs = cur.s /\ ev.re = cur.e /\ ev.rstep = step /\ NoChange
ScopeSet(ev) ==
  IF ev.s > ev.e \/ ev.step < -1 \/ ev.s < 0 THEN Fails(ev)
  ELSE /\ Ok(ev) /\ ev.rs = cur.s /\ ev.re = cur.e /\ ev.rstep = step
       /\ SetScope(ev.s, ev.e, IF ev.step = -1 THEN ev.e - 1 ELSE ev.step)
StepGet(ev) == Ok(ev) /\ ev.r = step /\ NoChange
StepSet(ev) == IF ev.step < 0 THEN Fails(ev) ELSE Ok(ev) /\ ev.r = step /\ SetStep(ev.step)

SetInst(ev) == IF ev.v = Nil THEN Fails(ev) ELSE Ok(ev) /\ SetInstance(ev.name, ev.v)
GetInst(ev) == Ok(ev) /\ ev.r = GetInstance(ev.name, step) /\ NoChange
ThisInst(ev) == Ok(ev) /\ ev.r = ThisInstance(ev.name, cur) /\ NoChange

DefT(ev) ==
  IF ~Known(ev.ctx) \/ ~AllKnown(ParTypes(ev.pars)) THEN Fails(ev)
  ELSE /\ Ok(ev)
       /\ IF MatchingEntries(cur, ev.ctx, ev.name, ParTypes(ev.pars)) # {}
          THEN ev.r = -1 /\ NoChange
          ELSE DefType(ev.r, ev.ctx, ev.name, ev.ctor, ev.pars)
DefTAs(ev) ==
  IF ~Known(ev.ctx) \/ ev.t \notin Handles THEN Fails(ev)
  ELSE /\ Ok(ev)
       /\ IF EntriesAt(cur, ev.ctx, ev.name) # {}
          THEN ev.r = -1 /\ NoChange
          ELSE ev.r = ev.t /\ DefTypeAs(ev.ctx, ev.name, ev.t)
ThisT(ev) ==
  IF ~Known(ev.ctx) \/ ~AllKnown(ev.pars) THEN Fails(ev)
  ELSE /\ Ok(ev) /\ NoChange
       /\ LET M == MatchingEntries(cur, ev.ctx, ev.name, ev.pars)
          IN IF M = {} THEN ev.r = -2 ELSE ev.r \in {defs[k].t : k \in M}
ThisTs(ev) ==
  IF ~Known(ev.ctx) THEN Fails(ev)
  ELSE Ok(ev) /\ NoChange /\ SeqToSet(ev.r) = ThisTypes(cur, ev.ctx, ev.name)
              /\ Len(ev.r) = Cardinality(ThisTypes(cur, ev.ctx, ev.name))

DefR(ev) ==
  IF \/ ~Known(ev.to) \/ ev.from \notin Handles \/ ev.to = ev.from
     \/ ev.tag < 1 \/ ev.tag > 32 \/ ev.w < 0
  THEN Fails(ev)
  ELSE IF DuplicateReds(ev.to, ev.from, ev.tag) = {}
       THEN Ok(ev) /\ DefReduction(ev.to, ev.from, ev.ctor, ev.tag, ev.w)
       ELSE IF ev.ctor = Nil /\ \A k \in DuplicateReds(ev.to, ev.from, ev.tag) : reds[k].ctor = Nil
            THEN Ok(ev) /\ NoChange
            ELSE Fails(ev)
GetR(ev) ==
  IF ~Known(ev.to) \/ ev.from \notin Handles THEN Fails(ev) ELSE
  /\ Ok(ev) /\ NoChange
  /\ LET k == RedIndex(ev.from, ev.to, step, Mask(ev))
     IN IF k = 0 THEN ~ev.found ELSE ev.found /\ ev.w = reds[k].w /\ ev.c = reds[k].ctor
GetRs(ev) ==
  IF ev.from \notin Handles THEN Fails(ev) ELSE
  /\ Ok(ev) /\ NoChange
  /\ LET O == Out(ev.from, step, Mask(ev))
     IN /\ Len(ev.r) = Cardinality(O)
        /\ SeqToSet(ev.r) = {[t |-> reds[k].to, c |-> reds[k].ctor, w |-> reds[k].w,
                              n |-> reds[k].tag \in SeqToSet(ev.ctags)] : k \in O}
Derive(ev) ==
  IF ~Known(ev.to) \/ ev.from \notin Handles THEN Fails(ev) ELSE
  /\ Ok(ev) /\ NoChange
  /\ LET D == Derivations(ev.to, ev.from, step, Mask(ev), SeqToSet(ev.ctags), ev.max)
     IN IF D = {} THEN ~ev.found
        ELSE /\ ev.found
             /\ \E p \in D :
                  /\ ev.r = Applied(p)
                  /\ ev.w = Weight(p)
                  /\ IF Cardinality(D) = 1 THEN ev.alt = << >>
                     ELSE \E q \in D \ {p} : ev.alt = PathTypes(q)
Resolve(ev) ==
  /\ Ok(ev) /\ NoChange
  /\ LET M == Resolutions({c.t : c \in SeqToSet(ev.ctxs)}, ev.name, step, Mask(ev))
     IN IF M = {} THEN ev.rt = "none"
        ELSE IF Cardinality(M) = 1
        THEN LET c == CHOOSE x \in M : TRUE
                 t == EndOf(c.start, c.p)
             IN /\ ev.rt = "type" /\ ev.t = t
                /\ \E k \in 1..Len(ev.ctxs) :
                     /\ ev.ctxs[k].t = c.start
                     /\ ev.r = (IF ev.ctxs[k].pair THEN <<[t |-> c.start, c |-> ev.ctxs[k].c]>> ELSE << >>) \o Applied(c.p)
                /\ SeqToSet(ev.items) = VisibleTypes(t, ev.name, step)
                /\ Len(ev.items) = Cardinality(VisibleTypes(t, ev.name, step))
        ELSE /\ ev.rt = "ambiguous"
             /\ \E a, b \in M : a # b /\ ev.alt = <<EndOf(a.start, a.p), EndOf(b.start, b.p)>>

TName(ev) == IF ~Known(ev.t) THEN Fails(ev)
             ELSE Ok(ev) /\ NoChange /\ ev.r = (IF ev.t = 0 THEN "" ELSE types[ev.t].name)
TCtx(ev) == IF ~Known(ev.t) THEN Fails(ev)
            ELSE Ok(ev) /\ NoChange /\ ev.r = (IF ev.t = 0 THEN 0 ELSE types[ev.t].ctx)
TString(ev) == IF ~Known(ev.t) THEN Fails(ev) ELSE Ok(ev) /\ NoChange /\ ev.r = TypeString(ev.t, ev.sep)
TPars(ev) == IF ev.t \notin Handles THEN Fails(ev)
             ELSE Ok(ev) /\ NoChange /\ ev.r = types[ev.t].pars /\ ev.n = Len(types[ev.t].pars)
TCtor(ev) == IF ev.t \notin Handles THEN Fails(ev) ELSE Ok(ev) /\ NoChange /\ ev.r = types[ev.t].ctor
TScope(ev) == IF ev.t \notin Handles THEN Fails(ev)
              ELSE Ok(ev) /\ NoChange /\ ev.rs = types[ev.t].s /\ ev.re = types[ev.t].e

TreeSet(ev, Val(_)) == {[s |-> n.s, e |-> n.e, ps |-> n.ps, pe |-> n.pe, val |-> Val(n)] : n \in SeqToSet(ev.nodes)}
ITree(ev) == LET V(n) == n.val IN
  Ok(ev) /\ NoChange /\ TreeSet(ev, V) = InstanceTree(ev.name) /\ Len(ev.nodes) = Cardinality(InstanceTree(ev.name))
\* lists are compared as bags: a type reached by two names of a scope is listed twice
LTree(ev, T) == LET V(n) == SeqToBag(n.val) IN
  /\ Ok(ev) /\ NoChange /\ TreeSet(ev, V) = T /\ Len(ev.nodes) = Cardinality(T)

(***************************************************************************)
(* The declarations of the methods: the minimum number of arguments and    *)
(* the sort of every argument. A call that does not fit has to fail.       *)
(***************************************************************************)
Declared ==
  [scope |-> [least |-> 0, args |-> <<"range", "step">>],
   step |-> [least |-> 0, args |-> <<"step">>],
   set_instance |-> [least |-> 2, args |-> <<"name", "any">>],
   get_instance |-> [least |-> 1, args |-> <<"name">>],
   this_instance |-> [least |-> 1, args |-> <<"name">>],
   def_type |-> [least |-> 2, args |-> <<"type0", "name", "any", "pars">>],
   def_type_as |-> [least |-> 3, args |-> <<"type0", "name", "type">>],
   this_type |-> [least |-> 2, args |-> <<"type0", "name", "list">>],
   this_types |-> [least |-> 2, args |-> <<"type0", "name">>],
   def_reduction |-> [least |-> 4, args |-> <<"type0", "type", "any", "tag", "weight">>],
   get_reduction |-> [least |-> 2, args |-> <<"type0", "type", "mask">>],
   get_reductions |-> [least |-> 1, args |-> <<"type", "mask", "mask">>],
   derive_type |-> [least |-> 2, args |-> <<"type0", "type", "mask", "mask", "max">>],
   resolve_type |-> [least |-> 2, args |-> <<"ctx", "name", "mask">>],
   type_name |-> [least |-> 1, args |-> <<"type0">>],
   type_context |-> [least |-> 1, args |-> <<"type0">>],
   type_string |-> [least |-> 1, args |-> <<"type0", "sep">>],
   type_parameters |-> [least |-> 1, args |-> <<"type">>],
   type_nof_parameters |-> [least |-> 1, args |-> <<"type">>],
   type_constructor |-> [least |-> 1, args |-> <<"type">>],
   type_scope |-> [least |-> 1, args |-> <<"type">>],
   instance_tree |-> [least |-> 1, args |-> <<"name">>],
   type_tree |-> [least |-> 0, args |-> << >>],
   reduction_tree |-> [least |-> 0, args |-> << >>]]
\* the kinds of values (named in driver/typedb.lua) that can be an argument of a sort
Fitting ==
  [range |-> {"scope", "tab"},
   step |-> {"num", "zero"},
   name |-> {"str", "numstr"},
   sep |-> {"nil", "str", "numstr"},
   any |-> {"nil", "bool", "num", "zero", "neg", "frac", "big", "negbig", "nan", "inf", "str", "numstr", "tab", "func", "file", "db", "scope", "list"},
   type0 |-> {"num", "zero"},
   type |-> {"num"},
   pars |-> {"nil", "tab", "list"},
   list |-> {"nil", "tab", "list"},
   tag |-> {"num"},
   weight |-> {"nil", "num", "zero", "frac", "big", "inf"},
   mask |-> {"nil", "num", "zero"},
   max |-> {"nil", "num", "zero", "neg"},
   ctx |-> {"num", "zero", "list"}]
FitsDeclaration(ev) ==
  LET d == Declared[ev.m]
  IN /\ ev.obj = "db"
     /\ Len(ev.args) >= d.least /\ Len(ev.args) <= Len(d.args)
     /\ \A k \in 1..Len(ev.args) : ev.args[k] \in Fitting[d.args[k]]
BadCall(ev) == ~FitsDeclaration(ev) /\ ev.failed /\ NoChange

(***************************************************************************)
(* A tree is a snapshot: it shows what was defined when it was made,       *)
(* whatever is defined later, also if its database does not exist anymore. *)
(***************************************************************************)
KeptNext(ev) ==
  IF ev.op # "keep" THEN kept
  ELSE CASE ev.kind = "inst" -> [kept EXCEPT !.inst = InstanceTree(ev.name)]
         [] ev.kind = "type" -> [kept EXCEPT !.type = TypeTree]
         [] ev.kind = "redu" -> [kept EXCEPT !.redu = ReductionTree]
Show(ev) ==
  LET V(n) == n.val IN
  CASE ev.kind = "inst" -> Ok(ev) /\ NoChange /\ TreeSet(ev, V) = kept.inst /\ Len(ev.nodes) = Cardinality(kept.inst)
    [] ev.kind = "type" -> LTree(ev, kept.type)
    [] ev.kind = "redu" -> LTree(ev, kept.redu)

New == /\ cur' = [s |-> 0, e |-> MaxStep] /\ step' = 0 /\ inst' = {}
       /\ types' = << >> /\ defs' = << >> /\ reds' = << >>

Step(ev) ==
  CASE ev.op = "new" -> New
    [] ev.op = "scope_get" -> ScopeGet(ev)
    [] ev.op = "scope" -> ScopeSet(ev)
    [] ev.op = "step_get" -> StepGet(ev)
    [] ev.op = "step" -> StepSet(ev)
    [] ev.op = "set_instance" -> SetInst(ev)
    [] ev.op = "get_instance" -> GetInst(ev)
    [] ev.op = "this_instance" -> ThisInst(ev)
    [] ev.op = "def_type" -> DefT(ev)
    [] ev.op = "def_type_as" -> DefTAs(ev)
    [] ev.op = "this_type" -> ThisT(ev)
    [] ev.op = "this_types" -> ThisTs(ev)
    [] ev.op = "def_reduction" -> DefR(ev)
    [] ev.op = "get_reduction" -> GetR(ev)
    [] ev.op = "get_reductions" -> GetRs(ev)
    [] ev.op = "derive_type" -> Derive(ev)
    [] ev.op = "resolve_type" -> Resolve(ev)
    [] ev.op = "type_name" -> TName(ev)
    [] ev.op = "type_context" -> TCtx(ev)
    [] ev.op = "type_string" -> TString(ev)
    [] ev.op = "type_parameters" -> TPars(ev)
    [] ev.op = "type_constructor" -> TCtor(ev)
    [] ev.op = "type_scope" -> TScope(ev)
    [] ev.op = "instance_tree" -> ITree(ev)
    [] ev.op = "type_tree" -> LTree(ev, TypeTree)
    [] ev.op = "keep" -> Ok(ev) /\ NoChange
    [] ev.op = "show" -> Show(ev)
    [] ev.op = "bad" -> BadCall(ev)
    [] ev.op = "reduction_tree" -> LTree(ev, ReductionTree)

TInit == Init /\ i = 1 /\ kept = [inst |-> {}, type |-> {}, redu |-> {}]
TNext == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1 /\ kept' = KeptNext(Trace[i])
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
===========================================================================
