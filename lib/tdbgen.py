"""Generators of type database histories (lists of operations for driver/typedb.lua)."""
import random

MAXSTEP = 2147483647


def lua(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + "".join(c if 32 <= ord(c) < 127 and c not in '"\\' else "\\%03d" % b
                             for ch in v for c, b in ((ch, ord(ch)),)) + '"'
    if isinstance(v, dict):
        return "{" + ",".join("%s=%s" % (k, lua(x)) for k, x in v.items()) + "}"
    if isinstance(v, (list, tuple)):
        return "{" + ",".join(lua(x) for x in v) + "}"
    raise TypeError(v)


def ops_text(ops):
    return "".join(lua(o) + "\n" for o in ops)


def scope_tree(rng, n, maxdepth=5, whole=True):
    """Random family of pairwise nested-or-disjoint non-empty scopes."""
    res = set()
    if whole:
        res.add((0, MAXSTEP))

    def split(s, e, d):
        if e - s < 1 or d == 0 or len(res) >= n:
            return
        k = rng.randint(1, 3)
        pts = sorted(rng.sample(range(s, e + 1), min(2 * k, e - s + 1)))
        # intervals that may share end points with each other and with the parent
        mode = rng.random()
        ivs = []
        if mode < 0.5:
            for a, b in zip(pts, pts[1:]):
                ivs.append((a, b))
        else:
            for a, b in zip(pts[::2], pts[1::2]):
                ivs.append((a, b))
        for a, b in ivs:
            if a < b and len(res) < n:
                res.add((a, b))
                if rng.random() < 0.85:
                    split(a, b, d - 1)
    tries = 0
    while len(res) < n and tries < 30:
        tries += 1
        size = rng.choice([4, 8, 12, 20, 40])
        base = res.copy()
        if len(res) <= 1:
            split(0, size, maxdepth)
        else:
            s, e = rng.choice(sorted(x for x in base if x != (0, MAXSTEP)) or [(0, 12)])
            # add a scope inside or around if it stays nested
            a = rng.randint(max(0, s - 2), s + 2)
            b = rng.randint(a + 1, max(a + 1, e + 2))
            if all(b <= x or y <= a or (x <= a and b <= y) or (a <= x and y <= b) for x, y in res):
                res.add((a, b))
    return sorted(res)


# Declarations of the methods: minimum number of arguments, sorts of the arguments
METHODS = {
    "scope": (0, ["range", "step"]), "step": (0, ["step"]),
    "set_instance": (2, ["name", "any"]), "get_instance": (1, ["name"]), "this_instance": (1, ["name"]),
    "def_type": (2, ["type0", "name", "any", "pars"]), "def_type_as": (3, ["type0", "name", "type"]),
    "this_type": (2, ["type0", "name", "list"]), "this_types": (2, ["type0", "name"]),
    "def_reduction": (4, ["type0", "type", "any", "tag", "weight"]),
    "get_reduction": (2, ["type0", "type", "mask"]), "get_reductions": (1, ["type", "mask", "mask"]),
    "derive_type": (2, ["type0", "type", "mask", "mask", "max"]), "resolve_type": (2, ["ctx", "name", "mask"]),
    "type_name": (1, ["type0"]), "type_context": (1, ["type0"]), "type_string": (1, ["type0", "sep"]),
    "type_parameters": (1, ["type"]), "type_nof_parameters": (1, ["type"]), "type_constructor": (1, ["type"]), "type_scope": (1, ["type"]),
    "instance_tree": (1, ["name"]), "type_tree": (0, []), "reduction_tree": (0, []),
}
GOODKIND = {"range": "scope", "sep": "str", "step": "num", "name": "str", "any": "str", "type0": "zero", "type": "num", "pars": "list", "list": "list",
            "tag": "num", "weight": "num", "mask": "num", "max": "num", "ctx": "zero"}
NONUM = ["bool", "neg", "frac", "big", "nan", "inf", "str", "numstr", "tab", "func", "file", "db"]
LISTS = ["list_str", "list_numstr", "list_bool", "list_func", "list_file", "list_neg", "list_frac", "list_big", "list_nan", "list_key", "list_key0",
         "list_keyfrac", "list_keybool", "list_tab", "list_typestr", "list_typefrac", "list_typebig", "list_typeneg", "list_typetab", "list_ctor"]
RANGES = ["range_rev", "range_3", "range_str", "range_frac", "range_frac2", "range_big", "range_big2", "range_key", "range_neg", "range_nan", "range_tab"]
NOTAB = ["bool", "num", "neg", "frac", "str", "func", "file", "db"]
BADKINDS = {"sep": ["bool", "num", "zero", "neg", "frac", "tab", "func", "file", "db", "list"], "range": ["nil"] + NOTAB + RANGES, "step": ["nil"] + NONUM, "name": ["nil", "bool", "num", "zero", "neg", "frac", "tab", "func", "file", "db", "list"],
            "type0": ["nil"] + NONUM, "type": ["nil", "zero"] + NONUM, "pars": NOTAB + LISTS + ["list_3", "list_pairstr", "list_pairfrac"],
            "list": NOTAB + LISTS, "tag": ["nil", "zero"] + NONUM, "weight": ["bool", "neg", "nan", "str", "tab", "func", "file", "db", "negbig"],
            "mask": NONUM, "max": ["bool", "frac", "big", "negbig", "nan", "inf", "str", "tab", "func", "file", "db"],
            "ctx": ["nil"] + NONUM}


class Gen:
    def __init__(self, rng, mix, nscopes=8, names=("a", "b", "c"), length=60, maxtypes=8, ctxzero=0.6,
                 steps_extra=3, weights=(0, 16, 32, 64, 96), tags=(1, 2, 3, 32), errors=0.03, pars=0.3,
                 redenspre=0, values=("s:x", "t:1", "t:2", "f:1", "n:7", "b:true", "b:false", "s:", "t:3"), db=None, maxpars=3, maxctx=3, chain=0.0):
        self.rng, self.mix, self.length = rng, mix, length
        self.scopes = scope_tree(rng, nscopes)
        self.names, self.maxtypes, self.ctxzero = list(names), maxtypes, ctxzero
        self.weights, self.tags, self.errors, self.pars = list(weights), list(tags), errors, pars
        self.values = list(values)
        pts = {p for s in self.scopes for p in s if p < MAXSTEP}
        self.points = sorted({max(0, p + d) for p in pts for d in (-1, 0, 1)} | {0, MAXSTEP - 1})
        self.ntypes = 0
        self.db = db
        self.ops = []
        self.redpre = redenspre
        self.parlists = []
        self.maxpars, self.maxctx, self.chain = maxpars, maxctx, chain

    # -- small pieces
    def name(self):
        return self.rng.choice(self.names)

    def value(self):
        return self.rng.choice(self.values)

    def ctor(self):
        return "" if self.rng.random() < 0.3 else self.value()

    def ref(self, known=False):
        r = self.rng
        if not known and r.random() < self.errors:
            return r.choice([1000000, -1, -2])
        if self.ntypes == 0:
            return {"ref": 1}
        return {"ref": r.randint(1, self.ntypes)}

    def ctx(self):
        return 0 if self.rng.random() < self.ctxzero or self.ntypes == 0 else self.ref()

    def mask(self, o):
        r = self.rng
        if r.random() < 0.4:
            o["all"], o["tags"] = True, []
        else:
            o["all"] = False
            o["tags"] = r.sample(self.tags, r.randint(1, len(self.tags)))
        return o

    def cmask(self):
        r = self.rng
        return [] if r.random() < 0.4 else r.sample(self.tags, r.randint(1, len(self.tags)))

    def parlist(self):
        r = self.rng
        n = 0 if r.random() > self.pars else r.randint(1, self.maxpars)
        if n and self.parlists and r.random() < 0.4:
            # one used before, the same or slightly different
            ps = [dict(p) for p in r.choice(self.parlists)]
            x = r.random()
            if x < 0.2:
                ps.pop(r.randrange(len(ps)))
            elif x < 0.4:
                a, b = r.randrange(len(ps)), r.randrange(len(ps))
                ps[a], ps[b] = ps[b], ps[a]
            elif x < 0.6:
                r.choice(ps)["t"] = self.ref(True)
            return ps
        ps = [{"t": self.ref(True) if r.random() > 0.05 else 0, "c": self.ctor(), "form": r.randint(0, 2)} for _ in range(n)]
        if n:
            self.parlists.append(ps)
        return ps

    def emit(self, op, **kw):
        o = {"op": op, **kw}
        if self.db is not None:
            o["db"] = self.db
        self.ops.append(o)

    # -- operations
    def op_scope(self):
        r = self.rng
        if r.random() < self.errors:
            self.emit("scope", s=9, e=5, step=-1)
            return
        if r.random() < self.errors:
            s, e = r.choice(self.scopes)
            self.emit("scope", s=s, e=e, step=-5)
            return
        s, e = r.choice(self.scopes)
        st = -1 if r.random() < 0.5 else r.choice(self.points)
        self.emit("scope", s=s, e=e, step=st)

    def op_scope_get(self):
        self.emit("scope_get")

    def op_step(self):
        if self.rng.random() < self.errors:
            self.emit("step", step=self.rng.choice([-3, -1]))
        else:
            self.emit("step", step=self.rng.choice(self.points))

    def op_step_get(self):
        self.emit("step_get")

    def op_set_instance(self):
        self.emit("set_instance", name=self.name(), v="" if self.rng.random() < self.errors else self.value())

    def op_get_instance(self):
        self.emit("get_instance", name=self.name())

    def op_this_instance(self):
        self.emit("this_instance", name=self.name())

    def op_def_type(self):
        if self.ntypes >= self.maxtypes:
            return self.op_this_types()
        o = dict(ctx=self.ctx(), name=self.name(), ctor=self.ctor(), pars=self.parlist())
        if self.rng.random() < 0.5:
            o["nopars"] = True
        self.emit("def_type", **o)
        self.ntypes += 1

    def op_def_type_as(self):
        self.emit("def_type_as", ctx=self.ctx(), name=self.name(), t=self.ref())

    def op_this_type(self):
        o = dict(ctx=self.ctx(), name=self.name(), pars=[p["t"] for p in self.parlist()])
        if self.rng.random() < 0.5:
            o["nopars"] = True
        self.emit("this_type", **o)

    def op_this_types(self):
        self.emit("this_types", ctx=self.ctx(), name=self.name())

    def op_def_reduction(self):
        r = self.rng
        t = r.choice(self.tags)
        w = r.choice(self.weights)
        if r.random() < self.errors:
            t = r.choice([0, 33])
        if r.random() < self.errors:
            w = -64
        o = dict(to=self.tref(), **{"from": self.ref()}, ctor=self.ctor(), tag=t, w=w)
        if self.chain and r.random() < self.chain and self.ntypes > 1:
            k = r.randint(1, self.ntypes - 1)
            o["from"], o["to"] = {"ref": k}, {"ref": k + 1}
        if r.random() < 0.3:
            o["now"] = True
        self.emit("def_reduction", **o)

    def op_get_reduction(self):
        self.emit("get_reduction", **self.mask(dict(to=self.tref(), **{"from": self.ref()})))

    def op_get_reductions(self):
        self.emit("get_reductions", **self.mask({"from": self.ref(), "ctags": self.cmask()}))

    def op_derive_type(self):
        r = self.rng
        o = self.mask({"to": self.tref(), "from": self.ref(), "ctags": self.cmask(), "max": r.choice([-1, 0, 1, 1, 1, 2, 3])})
        if r.random() < 0.5:
            o["nomax"] = True
        self.emit("derive_type", **o)

    def op_resolve_type(self):
        r = self.rng
        lst = r.random() < 0.5
        n = r.randint(1, self.maxctx) if lst else 1
        ctxs = []
        for _ in range(n):
            pair = r.random() < 0.5
            ctxs.append({"t": 0 if r.random() < 0.1 else self.ref(True), "c": self.ctor() if pair else "", "pair": pair})
        self.emit("resolve_type", **self.mask({"ctxs": ctxs, "list": lst, "name": self.name()}))

    def tref(self):
        r = self.rng.random()
        return 0 if r < 0.05 else self.ref()

    def op_type_name(self):
        self.emit("type_name", t=self.tref())

    def op_type_context(self):
        self.emit("type_context", t=self.tref())

    def op_type_string(self):
        self.emit("type_string", t=self.tref(), sep=self.rng.choice([" ", "::", "", "."]))

    def op_type_parameters(self):
        self.emit("type_parameters", t=self.tref())

    def op_type_constructor(self):
        self.emit("type_constructor", t=self.ref())

    def op_type_scope(self):
        self.emit("type_scope", t=self.ref())

    def op_instance_tree(self):
        self.emit("instance_tree", name=self.name())

    def op_type_tree(self):
        self.emit("type_tree")

    def op_reduction_tree(self):
        self.emit("reduction_tree")

    def op_keep(self):
        self.emit("keep", kind=self.rng.choice(["inst", "type", "redu"]), name=self.name())

    def op_show(self):
        if self.rng.random() < 0.2:
            self.emit("gc")
        self.emit("show", kind=self.rng.choice(["inst", "type", "redu"]))

    def op_bad(self):
        """a call with arguments the method does not take"""
        r = self.rng
        m = r.choice(list(METHODS))
        least, sorts = METHODS[m]
        n = r.randint(least, len(sorts))
        args, self_ = [GOODKIND[x] for x in sorts[:n]], "db"
        x = r.random()
        if x < 0.1 and least > 0:
            args = args[:r.randrange(least)]
        elif x < 0.2:
            args = [GOODKIND[s] for s in sorts] + [r.choice(["num", "str", "nil", "list"])]
        elif x < 0.25:
            self_ = r.choice(["none", "str", "tab", "file", "num", "tree", "func", "nil", "bool"])
        else:
            ks = [k for k in range(n) if sorts[k] in BADKINDS]
            if not ks:
                args = [GOODKIND[s] for s in sorts] + ["num"]
            else:
                k = r.choice(ks)
                args[k] = r.choice(BADKINDS[sorts[k]])
        self.emit("bad", m=m, obj=self_, args=args)

    def history(self):
        self.emit("new")
        names = list(self.mix)
        wts = [self.mix[n] for n in names]
        for _ in range(self.length):
            getattr(self, "op_" + self.rng.choices(names, wts)[0])()
        return self.ops
