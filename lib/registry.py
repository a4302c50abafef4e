"""Which machinery decides which property."""
import itertools, shutil, tempfile

import lexcheck as X
import lexgen as G
import lrcheck as C
import lrgen as L
import tdbcheck as T
import valcheck as V
import gramcheck as M
import runcheck as R
import sizecheck as Z
import floatcheck as F
import clicheck as I
import tracecheck as S
import errcheck as E
import loadcheck as LD
import reportcheck as Q
import tlc

NAV = {"scope": 5, "step": 2}
MANY = tuple("n%d" % k for k in range(60))


def c01(ctx, so):
    """Scoped instances."""
    T.model_conformance(ctx, so, "inst", 4, 4, ctx.n(2, 3), limit=ctx.n(1500, 8000))
    mix = {**NAV, "set_instance": 4, "get_instance": 6, "this_instance": 3}
    T.random_conformance(ctx, so, mix, ctx.n(150, 1500), "random instance history",
                         nscopes=lambda r: r.choice([3, 8, 16]), names=("a", "b"), length=lambda r: r.choice([40, 120]))
    T.random_conformance(ctx, so, mix, ctx.n(8, 60), "long instance history", nscopes=40, names=("a", "b", "c"), length=900, batch=20)


def c02(ctx, so):
    T.model_conformance(ctx, so, "type", ctx.n(3, 4), 3, 2, limit=ctx.n(1500, 8000))
    mix = {**NAV, "def_type": 6, "def_type_as": 3, "this_type": 4, "this_types": 3, "resolve_type": 4, "type_tree": 1,
           "type_name": 1, "type_scope": 1}
    T.random_conformance(ctx, so, mix, ctx.n(250, 3000), "random type definition history", nscopes=lambda r: r.choice([2, 5, 9]),
                         names=("a", "b"), maxtypes=lambda r: r.choice([4, 10, 20]), pars=0.5, length=lambda r: r.choice([40, 90, 200]),
                         errors=0.01)
    T.random_conformance(ctx, so, mix, ctx.n(3, 40), "long type definition history", nscopes=20, names=MANY, maxtypes=1500, pars=0.3,
                         length=ctx.n(2500, 6000), errors=0.01, batch=3)
    T.random_conformance(ctx, so, mix, ctx.n(15, 200), "type definition history with many parameters", nscopes=3, names=("a", "b"), maxtypes=30, pars=0.9,
                         maxpars=lambda r: r.choice([10, 40, 300]), length=120, errors=0.01)


def c03(ctx, so):
    T.model_conformance(ctx, so, "redu", 3, 3, 2, limit=ctx.n(1000, 8000))
    mix = {**NAV, "def_type": 1, "def_reduction": 6, "get_reduction": 6, "get_reductions": 4}
    T.random_conformance(ctx, so, mix, ctx.n(200, 3000), "random reduction history", nscopes=lambda r: r.choice([2, 5, 9]),
                         maxtypes=lambda r: r.choice([3, 5]), length=lambda r: r.choice([60, 150]), pars=0.0, errors=0.01,
                         tags=lambda r: r.choice([(1, 2, 3, 32), (1, 2, 3, 32), tuple(range(1, 33))]))
    T.random_conformance(ctx, so, {**mix, "def_type": 3}, ctx.n(3, 40), "long reduction history", nscopes=20, names=MANY, maxtypes=lambda r: r.choice([10, 60, 400]),
                         pars=0.0, length=ctx.n(2000, 5000), errors=0.01, batch=3)


def c04(ctx, so):
    T.model_conformance(ctx, so, "graph", ctx.n(3, 4), 1, 0, limit=ctx.n(900, None))
    for nt, ln, cnt in ((4, 60, ctx.n(120, 1200)), (6, 90, ctx.n(80, 1000)), (7, 60, ctx.n(20, 400))):
        mix = {"scope": 2, "step": 1, "def_type": 2, "def_reduction": 8, "derive_type": 8}
        T.random_conformance(ctx, so, mix, cnt, "random derivation history", nscopes=3, maxtypes=nt, length=ln, pars=0.0, errors=0.005)
    mix = {"scope": 1, "def_type": 4, "def_reduction": 8, "derive_type": 6}
    T.random_conformance(ctx, so, mix, ctx.n(20, 400), "derivation history with long paths", nscopes=2, maxtypes=lambda r: r.choice([10, 16, 40]), length=300,
                         pars=0.0, errors=0.003, chain=0.85, tags=lambda r: r.choice([(1, 2), tuple(range(1, 33))]))


def c05(ctx, so):
    T.model_conformance(ctx, so, "graph", 3, 1, 0, limit=ctx.n(300, None))
    T.model_conformance(ctx, so, "type", 3, 3, 1, limit=ctx.n(500, None))
    for nt, ln, cnt in ((5, 80, ctx.n(150, 1500)), (8, 120, ctx.n(100, 1200))):
        mix = {"scope": 2, "step": 1, "def_type": 4, "def_type_as": 1, "def_reduction": 6, "resolve_type": 9}
        T.random_conformance(ctx, so, mix, cnt, "random name resolution history", nscopes=3, maxtypes=nt, length=ln,
                             names=("a", "b"), ctxzero=0.25, pars=0.2, errors=0.005)
    mix = {"scope": 1, "def_type": 5, "def_reduction": 8, "resolve_type": 6}
    T.random_conformance(ctx, so, mix, ctx.n(12, 300), "name resolution history with long paths", nscopes=2, maxtypes=lambda r: r.choice([10, 16, 30]), length=300,
                         names=("a", "b", "c"), ctxzero=0.5, pars=0.2, errors=0.003, chain=0.85, maxctx=8, tags=(1, 2))


ALL = {n[3:]: 2 for n in dir(T.tdbgen.Gen) if n.startswith("op_")}


def c06(ctx, so):
    mix = {**ALL, "scope": 8, "step": 4, "scope_get": 6, "step_get": 4, "def_type": 4, "def_reduction": 4}
    T.random_conformance(ctx, so, mix, ctx.n(200, 3000), "random history with rejected calls", errors=0.3,
                         nscopes=lambda r: r.choice([3, 8]), length=100)
    T.random_conformance(ctx, so, {"scope": 8, "step": 5, "scope_get": 6, "step_get": 4}, ctx.n(100, 1000), "random scope history",
                         errors=0.2, nscopes=12, length=80)
    T.random_conformance(ctx, so, {**mix, "bad": 40}, ctx.n(150, 3000), "random history with calls that do not fit the declaration of the method",
                         errors=0.05, nscopes=lambda r: r.choice([3, 8]), length=120)


def c07(ctx, so):
    T.model_conformance(ctx, so, "inst", 3, 4, ctx.n(2, 3), limit=ctx.n(800, 8000))
    T.model_conformance(ctx, so, "redu", 3, 3, 2, limit=ctx.n(400, 4000))
    mix = {"scope": 8, "set_instance": 5, "def_type": 5, "def_type_as": 2, "def_reduction": 5,
           "instance_tree": 3, "type_tree": 3, "reduction_tree": 3}
    T.random_conformance(ctx, so, mix, ctx.n(200, 3000), "random history with trees", nscopes=lambda r: r.choice([3, 8, 20]),
                         length=lambda r: r.choice([60, 150]), maxtypes=12, errors=0.01)
    T.random_conformance(ctx, so, {**mix, "keep": 2, "show": 3, "instance_tree": 1, "type_tree": 1, "reduction_tree": 1}, ctx.n(80, 1000),
                         "random history with trees shown later", nscopes=lambda r: r.choice([3, 8]), length=80, maxtypes=12, errors=0.01)


def c08(ctx, so):
    mix = {"scope": 2, "def_type": 8, "def_type_as": 1, "type_name": 3, "type_context": 3, "type_string": 4, "type_parameters": 3,
           "type_constructor": 3, "type_scope": 3}
    T.random_conformance(ctx, so, mix, ctx.n(200, 2500), "random type attribute history", maxtypes=lambda r: r.choice([6, 20, 60]),
                         length=lambda r: r.choice([60, 200]), pars=0.5, ctxzero=0.3, errors=0.03,
                         names=("a", "ab", "abc", "b", "x y", "&", "\xc3\xa4", ""))
    T.random_conformance(ctx, so, mix, ctx.n(3, 40), "long type attribute history", maxtypes=1500, length=ctx.n(3000, 6000), pars=0.5, ctxzero=0.2,
                         errors=0.01, names=MANY, batch=3)
    T.random_conformance(ctx, so, mix, ctx.n(15, 200), "type attribute history with deep contexts", maxtypes=30, pars=0.0, ctxzero=0.1, length=150, errors=0.01)
    mix = {k: v for k, v in mix.items() if k != "type_string"}  # its length would be exponential
    T.random_conformance(ctx, so, mix, ctx.n(15, 200), "type attribute history with many parameters", maxtypes=30, pars=0.8, ctxzero=0.3,
                         maxpars=lambda r: r.choice([10, 40, 300]), length=120, errors=0.01)


def c24(ctx, so):
    ops = []
    for _ in range(ctx.n(25, 250)):
        ops += T.interleaved(ctx.rng, {**ALL, "scope": 6, "def_type": 6, "def_reduction": 6, "set_instance": 6}, 100, ctx.rng.randint(2, 4))
    T.check_ops(ctx, so, ops, "interleaved databases")
    groups = []
    for _ in range(ctx.n(60, 600)):
        groups.append(lr_cases(ctx, L.structured_grammar, ctx.rng.randint(2, 5), words=8, exhaustive=2, member=0, depth=5, limit=30, options=True, attr=dict(call=0.8, sf=0.5, fail=0.05)))
    C.check_interleaved(ctx, so, groups, "interleaved compilers")


# ---- lexers

def all_sources(ctx, count, alphabet, length, **kw):
    """Lexers with all sources over their alphabet up to a length."""
    cases = []
    for c in X.make_cases(ctx, count, 0, **kw):
        al = alphabet(ctx.rng, c["g"])
        runs = [{"src": list(b"".join(q))} for n in range(length + 1) for q in itertools.product(al, repeat=n)]
        cases += [{**c, "runs": runs[k:k + 120]} for k in range(0, len(runs), 120)]
    ctx.note("all sources up to %d pieces for %d lexers" % (length, count))
    return cases


def pieces(n):
    def al(rng, g):
        q = [rng.choice([b" ", b"\n"])]
        q += [bytes([rng.choice(G.sample(rng, p["r"]) or b"a")]) for p in g["patterns"]]
        q += [bytes([rng.choice(k.encode())]) for k in g["keywords"]]
        q += [bytes([ch]) for a, b in g["brackets"] for ch in (a + b).encode()] + [bytes([ch]) for a in g["eolns"] for ch in a.encode()]
        q = [x for x in dict.fromkeys(q) if x != b"\0"]
        return q[:1] + rng.sample(q[1:], min(len(q) - 1, n - 1))
    return al


def c09(ctx, so):
    X.check_cases(ctx, so, X.make_cases(ctx, ctx.n(500, 6000), 12), "random lexer")
    X.check_cases(ctx, so, X.make_cases(ctx, ctx.n(80, 800), 12, simple=True), "usual lexer")
    X.check_cases(ctx, so, all_sources(ctx, ctx.n(30, 200), pieces(4), ctx.n(4, 5)), "short sources")


def long_lines(rng, g):
    out = b""
    for _ in range(rng.randint(1, 5)):
        out += G.source(rng, g, 40) + rng.choice([b"\n", b"\r\n", b"\n\n", b"\n \t\n", b"\r\n\r\n", b"\r", b""])
    return out


def many_lines(rng, g):
    out = b""
    for _ in range(rng.randint(2, 4)):
        out += G.source(rng, g, 30) + rng.choice([b"\n", b"\r\n", b" \n"]) * rng.choice([1, 127, 255, 256, 260, 520])
    return out


def deep_layout(rng, g):
    """Many blocks, wide lines"""
    word = lambda: rng.choice(g["keywords"]).encode() if rng.random() < 0.6 else G.sample(rng, g["patterns"][0]["r"])
    out, cur = b"", [0]
    step = rng.choice([[1], [1, 2, 4], [8], [40, 1], [60, 100, 3]])
    n = rng.choice([12, 40, 70])
    for k in range(n):
        x = rng.random()
        if x < 0.8 and k < 0.8 * n:
            cur.append(cur[-1] + rng.choice(step))
        elif x < 0.9 or k >= 0.8 * n:
            del cur[rng.randint(1, len(cur)):]
        if rng.random() < 0.03:
            cur = [0]
        w = cur[-1]
        if rng.random() < 0.05:
            w += rng.choice([-1, 1]) if w else 0
        t = rng.choice([0, 0, w // g["tabsize"], rng.randint(0, w // g["tabsize"])])
        out += b"\t" * t + b" " * (w - t * g["tabsize"]) + word() + rng.choice([b"\n", b"\n", b"\r\n", b" \n\n"])
    return out.replace(b"\0", b" ")


def c10(ctx, so):
    X.check_cases(ctx, so, X.make_cases(ctx, ctx.n(250, 3000), 10, source=long_lines), "random lexer")
    X.check_cases(ctx, so, X.make_cases(ctx, ctx.n(30, 300), 5, source=many_lines, simple=True), "many lines")
    X.check_cases(ctx, so, X.make_cases(ctx, ctx.n(120, 1500), 10, indent=True), "indentation")
    C.check_cases(ctx, so, lr_cases(ctx, L.structured_grammar, ctx.n(150, 2000), words=20, exhaustive=0, member=0, attr=dict(call=0.9)), "node and error lines")


def c11(ctx, so):
    X.check_cases(ctx, so, X.make_cases(ctx, ctx.n(250, 3000), 12, indent=True, simple=True), "indentation")
    X.check_cases(ctx, so, X.make_cases(ctx, ctx.n(150, 2000), 12, indent=True), "indentation, random lexer")
    X.check_cases(ctx, so, X.make_cases(ctx, ctx.n(16, 400), 3, source=deep_layout, indent=True, simple=True, tabsizes=[1, 2, 4, 8, 8, 16, 100]), "deep indentation")
    layout = lambda extra: lambda rng, g: [b"\n", b" ", G.sample(rng, g["patterns"][0]["r"])] + extra(rng, g)
    X.check_cases(ctx, so, all_sources(ctx, ctx.n(3, 8), layout(lambda r, g: [b"\t"]), ctx.n(5, 7), indent=True, simple=True), "layouts")
    X.check_cases(ctx, so, all_sources(ctx, ctx.n(3, 8), layout(lambda r, g: [G.comment(r, g)]), ctx.n(5, 7), indent=True, simple=True), "layouts with comments")


# ---- generated compilers

def lr_cases(ctx, make, count, words=14, exhaustive=12, member=0.25, depth=8, limit=60, shuffle=False, options=False, attr=None, binary=False, traced=False):
    cases = []
    for _ in range(count):
        g = make(ctx.rng)
        # sources are only run for grammars without nonterminals that derive nothing (see known finding LK3)
        while (words or exhaustive) and None in L.mindepths(g).values():
            g = make(ctx.rng)
        if not binary:
            L.attributes(ctx.rng, g, **(attr or {}))
        c = C.make_case(ctx.rng, g, L.words(ctx.rng, g, words, exhaustive=exhaustive, depth=depth, limit=limit), member=member,
                        shuffle=shuffle, options=options, traced=traced)
        c["binary"] = binary
        cases.append(c)
    return cases


def enumerated(ctx, maxprods, rhs, nts, nterm, limit, **kw):
    gs = list(L.enumerate_grammars(maxprods, rhs, nts, nterm))
    ctx.note("grammars with <= %d productions of %d nonterminals over %d terminals, right sides <= %d: %d" % (maxprods, nts, nterm, rhs, len(gs)))
    if kw.get("words") or kw.get("exhaustive"):
        gs = [g for g in gs if None not in L.mindepths(g).values()]
    if limit and len(gs) > limit:
        gs = ctx.rng.sample(gs, limit)
    else:
        ctx.note("... all of them")
    it = iter([L.finish(g) for g in gs])
    return lr_cases(ctx, lambda r: next(it), len(gs), **kw)


def c12(ctx, so):
    known_loop(ctx, so)
    C.check_cases(ctx, so, lr_cases(ctx, L.structured_grammar, ctx.n(250, 3000), words=20), "structured grammar")
    C.check_cases(ctx, so, lr_cases(ctx, L.random_grammar, ctx.n(250, 3000), exhaustive=30), "random grammar")
    C.check_cases(ctx, so, enumerated(ctx, 3, 2, 1, 2, ctx.n(150, None), words=0, exhaustive=60, member=0.5), "enumerated grammar")
    C.check_cases(ctx, so, enumerated(ctx, 4, 2, 2, 1, ctx.n(100, 4000), words=0, exhaustive=8, member=0.5), "enumerated grammar")
    C.check_cases(ctx, so, lr_cases(ctx, L.structured_grammar, ctx.n(20, 200), words=12, exhaustive=0, depth=25, limit=250), "long source")
    C.check_cases(ctx, so, deep_cases(ctx, L.nested_grammar, ctx.n(20, 400), 5, 70), "deep source")
    C.check_cases(ctx, so, deep_cases(ctx, L.structured_grammar, ctx.n(12, 300), 5, 60), "deep source")
    C.check_cases(ctx, so, lr_cases(ctx, L.chain_grammar, ctx.n(80, 1500), words=12, exhaustive=10), "chain of productions")


def deep_cases(ctx, make, count, words, depth, **kw):
    cases = []
    while len(cases) < count:
        g = make(ctx.rng)
        if None in L.mindepths(g).values():
            continue
        L.attributes(ctx.rng, g)
        w = L.deep_words(ctx.rng, g, words, depth)
        if max(map(len, w), default=0) >= 30:
            cases.append(C.make_case(ctx.rng, g, w, **kw))
    return cases


LK3 = """% LANGUAGE "x"; % TYPESYSTEM "verifts";
T = A (f);
A = N "x" B;
A = "b" A "b";
B = N B A (>>);
N = (>>);
"""


def known_loop(ctx, so):
    """LK3: a nonterminal that derives nothing and starts with an empty one: the compiler reduces for ever at the end."""
    d = tempfile.mkdtemp(prefix="lk3.")
    try:
        if C.generate(so, d, LK3).rc == 0:
            runs, fail = C.compile_runs(so, d, ["x"], mem=1 << 29)
            if fail or not C.SYNTAX.search(runs[0]["err"]):
                ctx.known_finding("LK3")
    finally:
        shutil.rmtree(d, ignore_errors=True)


KNOWN_LALR = {"LK1": [[102], [1, 2, 103, 3, 3], [1, 103, 4], [2, 103, 3], [5]],
              "LK2": [[102], [103], [104, 105, 3], [1], [1], [2], []]}


def known_lalr(key):
    lefts = {"LK1": [101, 102, 102, 103, 103], "LK2": [101, 102, 102, 103, 104, 105, 105]}[key]
    terms = [{"name": x, "kw": True, "text": x, "sel": 0} for x in ("a", "b", "y", "d", "z")]
    if key == "LK2":
        terms = [{"name": x, "kw": True, "text": x, "sel": 0} for x in ("a", "b", "c")]
    return L.finish({"terms": terms, "nts": ["S", "N0", "N1", "N2", "N3"], "prods": [{"l": l, "r": r} for l, r in zip(lefts, KNOWN_LALR[key])]})


def c13(ctx, so):
    none = dict(words=0, exhaustive=0, member=0)
    known = [C.make_case(ctx.rng, known_lalr(k), []) for k in sorted(KNOWN_LALR)]
    C.check_cases(ctx, so, known, "known finding")
    for k, c in zip(sorted(KNOWN_LALR), known):
        if c["conflict"]:
            ctx.known_finding(k)
    C.check_cases(ctx, so, lr_cases(ctx, L.random_grammar, ctx.n(900, 12000), **none), "random grammar")
    C.check_cases(ctx, so, lr_cases(ctx, L.structured_grammar, ctx.n(400, 6000), **none), "structured grammar")
    C.check_cases(ctx, so, lr_cases(ctx, lambda r: L.random_grammar(r, empty=0.35), ctx.n(300, 6000), **none), "grammar with many empty productions")
    C.check_cases(ctx, so, enumerated(ctx, 3, 2, 1, 2, ctx.n(300, None), **none), "enumerated grammar")
    C.check_cases(ctx, so, enumerated(ctx, 4, 2, 2, 1, ctx.n(500, 12000), **none), "enumerated grammar")
    C.check_cases(ctx, so, lr_cases(ctx, L.chain_grammar, ctx.n(120, 2500), **none), "chain of productions")
    C.check_cases(ctx, so, lr_cases(ctx, L.operator_grammar, ctx.n(200, 3000), **none), "grammar with priorities")
    C.check_cases(ctx, so, lr_cases(ctx, L.dangling_grammar, ctx.n(150, 2000), **none), "grammar with priorities")


def c14(ctx, so):
    C.check_cases(ctx, so, lr_cases(ctx, L.binary_grammar, ctx.n(150, 2000), words=25, exhaustive=0, member=0, limit=30, binary=True), "binary operators")
    C.check_cases(ctx, so, lr_cases(ctx, L.operator_grammar, ctx.n(200, 3000), words=25, member=0, exhaustive=0), "operator grammar")
    C.check_cases(ctx, so, lr_cases(ctx, L.dangling_grammar, ctx.n(250, 3000), words=25, member=0, exhaustive=0), "statements with priorities")


def c15(ctx, so):
    attr = dict(call=0.7, sf=0.75)
    C.check_cases(ctx, so, lr_cases(ctx, L.structured_grammar, ctx.n(300, 4000), words=20, exhaustive=5, member=0, attr=attr), "marked grammar")
    C.check_cases(ctx, so, lr_cases(ctx, lambda r: L.random_grammar(r, empty=0.25), ctx.n(250, 3000), words=20, exhaustive=12, member=0, attr=attr), "marked random grammar")
    C.check_cases(ctx, so, lr_cases(ctx, L.structured_grammar, ctx.n(15, 150), words=10, exhaustive=0, depth=25, limit=250, member=0, attr=attr), "long source")


def many_roots(rng):
    g = L.structured_grammar(rng, 2)
    # a list of items at the top, without a call of its own
    g["prods"][0]["call"] = ""
    n = 101 + len(g["nts"])
    g["nts"].append("Top")
    old = g["prods"][0]["r"]
    g["prods"][0]["r"] = [n]
    g["prods"] += rng.choice([[{"l": n, "r": [n] + old}, {"l": n, "r": []}], [{"l": n, "r": [n] + old}, {"l": n, "r": old}], [{"l": n, "r": old}]])
    return L.finish(g)


def c16(ctx, so):
    for fail, cnt in ((0.0, ctx.n(200, 2500)), (0.15, ctx.n(150, 2000))):
        cases = lr_cases(ctx, many_roots, cnt, words=20, exhaustive=3, member=0, options=True, attr=dict(call=0.75, fail=fail))
        for c in cases:
            p = c["g"]["prods"][0]
            if ctx.rng.random() < 0.75 and p["call"]:
                p.update(call="", arg="", argv="nil", sf="")
                c["text"] = L.grammar_text(ctx.rng, c["g"])
        C.check_cases(ctx, so, cases, "root nodes")


def c28(ctx, so):
    kw = dict(traced=True, member=0)
    C.check_cases(ctx, so, lr_cases(ctx, L.structured_grammar, ctx.n(120, 2000), words=20, exhaustive=15, **kw), "structured grammar")
    C.check_cases(ctx, so, lr_cases(ctx, L.random_grammar, ctx.n(120, 2000), words=10, exhaustive=25, **kw), "random grammar")
    C.check_cases(ctx, so, lr_cases(ctx, L.operator_grammar, ctx.n(60, 1000), words=20, exhaustive=0, **kw), "operator grammar")
    C.check_cases(ctx, so, lr_cases(ctx, many_roots, ctx.n(120, 2000), words=15, exhaustive=3, options=True, attr=dict(call=0.75, fail=0.1), **kw), "root nodes")
    C.check_cases(ctx, so, lr_cases(ctx, lambda r: dict(L.operator_grammar(r), long=True), ctx.n(15, 200), words=8, exhaustive=0, **kw), "long lexemes")
    if ctx.extra.get("first_step_at_end_unshown_known") and not ctx.known_finding("DT1"):
        ctx.violation("the first step at the end of the source is not shown", "")


def c29(ctx, so):
    E.check_model(ctx)
    E.check_cases(ctx, so, ctx.n(4000, 60000))


def c17(ctx, so):
    for make, count in ((L.structured_grammar, 200), (L.random_grammar, 200), (L.chain_grammar, 80)):
        C.check_cases(ctx, so, lr_cases(ctx, make, ctx.n(count, 15 * count), words=15, exhaustive=6, member=0, shuffle=True), "shuffled declarations")


def c18(ctx, so):
    C.check_cases(ctx, so, lr_cases(ctx, L.structured_grammar, ctx.n(250, 3000), words=30, exhaustive=20, member=0), "structured grammar")
    C.check_cases(ctx, so, lr_cases(ctx, L.random_grammar, ctx.n(250, 3000), words=15, exhaustive=40), "random grammar")
    C.check_cases(ctx, so, lr_cases(ctx, L.operator_grammar, ctx.n(100, 1500), words=25, member=0), "operator grammar")


# ---- values

def c23(ctx, so):
    def case(v, depths):
        ok = lambda d: (d or not V.cyclic(v)) and V.shown_size(v, d) < 3000
        return {"v": v, "shown": [(d, i) for d in depths if ok(d) for i in (False, True)]}
    vals = V.model_values(ctx, ctx.n(2, 3))
    V.check_cases(ctx, so, [case(v, (0, 1, 2, 3, 4)) for v in vals], "value of the model")
    rnd = []
    for _ in range(ctx.n(4000, 40000)):
        v = V.random_value(ctx.rng, ctx.rng.choice([0, 1, 2, 3]))
        if ctx.rng.random() < 0.25:
            v = V.with_cycles(ctx.rng, v)
        rnd.append(case(v, (ctx.rng.randint(1, 6), 0)))
    rnd += [case(V.random_value(ctx.rng, 0, 1), (0, 1)) for _ in range(ctx.n(1500, 15000))]
    deep = {"t": "tab", "e": []}
    for k in range(ctx.n(40, 60)):
        deep = {"t": "tab", "e": [{"k": V.random_key(ctx.rng), "v": deep}]}
        rnd.append(case(deep, (0, k + 1, k + 2)))
    V.check_cases(ctx, so, rnd, "random value")


def c19(ctx, so):
    for t in [ctx.n(5, 6)]:
        texts = M.model_texts(ctx, t)
        M.check_cases(ctx, so, [M.model_case(ctx.rng, x, ctx.rng.choice("sn")) for x in texts], "text of the model")
    if ctx.full():
        return
    cases = [M.make_case(ctx.rng, ctx.rng.choice("gggsn"), ctx.rng.choice([0, 1, 1, 1, 2])) for _ in range(ctx.n(1800, 25000))]
    M.check_cases(ctx, so, cases, "changed grammar")
    if ctx.full():
        return
    cases = [M.char_case(ctx.rng) for _ in range(ctx.n(1000, 16000))]
    M.lexed(ctx, ctx.rng.sample(cases, ctx.n(150, 3000)))
    M.check_cases(ctx, so, cases, "text changed by characters")


def c20(ctx, so):
    table, fail = R.make_table(so)
    if not table:
        ctx.violation("the grammar of the runs is not accepted: " + fail, R.GRAMMAR, ".g")
        return
    try:
        hist = R.model_histories(ctx, ctx.n(5, 6), ctx.n(2, 3))
        limit = ctx.n(1200, 30000)
        if len(hist) > limit:
            hist = ctx.rng.sample(hist, limit)
        cases = [R.model_case(ctx.rng, h) for h in hist]
        cases += [R.random_case(ctx.rng, ctx.rng.choice([3, 8, 20, 60])) for _ in range(ctx.n(1000, 15000))]
        ctx.rng.shuffle(cases)
        for k in range(0, len(cases), 2500):
            if not ctx.full():
                R.check_cases(ctx, so, table, cases[k:k + 2500], "history of the model or random")
    finally:
        shutil.rmtree(table, ignore_errors=True)


def c21(ctx, so):
    if M.attribute_on_line(so) == 2 and not ctx.known_finding("LD1"):
        ctx.violation("an attribute is attached to all declarations of the line", "mewa -l of\n# @descr letter\nA: \"a\"; S = A;\n")
    cases = [M.make_case(ctx.rng, ctx.rng.choice("llllgs"), 0 if ctx.rng.random() < 0.8 else 1) for _ in range(ctx.n(1500, 20000))]
    M.check_cases(ctx, so, cases, "described grammar")


# ---- sizes

SMALL = {"flat": 5, "flaterr": 5, "lex": 5, "nest": 1, "scopes": 1, "right": 1, "left": 1, "wide": 1, "long": 8, "chain": 6, "states": 40, "words": 4, "prio": 6, "follow": 5,
         "followerr": 5, "token": 1}
LIMITS = [("flat", 508), ("flat", 509), ("flaterr", 508), ("lex", 508), ("lex", 509), ("chain", 252), ("chain", 253), ("chain", 254), ("long", 15), ("long", 16), ("prio", 31), ("prio", 32),
          ("words", 102), ("words", 103), ("states", 4095), ("states", 4096), ("follow", 507), ("follow", 508), ("followerr", 507)]
LARGE = [("nest", 1, 1), ("scopes", 1, 1), ("right", 1, 2), ("left", 1, 2), ("wide", 1, 10), ("flat", 300, 4), ("lex", 300, 4), ("follow", 200, 2), ("chain", 100, 0.02), ("states", 2000, 0.5), ("long", 14, 0.5),
         ("words", 50, 0.5)]


def c22(ctx, so):
    rng = ctx.rng
    small = []
    for f in SMALL:
        lo = {"states": 14, "follow": 2, "followerr": 2}.get(f, 1)
        for _ in range(ctx.n(20, 120)):
            num, den = rng.choice([(1, 1), (1, 2), (0, 1), (2, 3), (3, 1)])
            small.append(Z.request(f, rng.randint(lo, max(lo, SMALL[f])), rng.randint(1, 2 if f == "prio" else 8), num, den))
    Z.check_cases(ctx, so, small, "small", True)
    Z.check_cases(ctx, so, [Z.request(f, k, n, 1, rng.randint(1, 3)) for f, k in LIMITS for n in ((1, 2) if f == "prio" else (ctx.n(150, 1500),))], "limit")
    big = ctx.n(10000, 50000)
    large = [Z.request(f, max(2, int(k * rng.uniform(0.5, 1.5))) if k > 20 else k, int(big * x * rng.uniform(0.8, 1.2)), 1, rng.randint(1, 5)) for f, k, x in LARGE for _ in range(ctx.n(1, 2))]
    large += [Z.request("token", 1, n) for n in (1000, 20000)] + [Z.request("comment", 1, n) for n in (0, 1000, ctx.n(300000, 3000000))]
    Z.check_cases(ctx, so, large, "large")
    if Z.long_token_dies(so) and not ctx.known_finding("LX1"):
        ctx.violation("the compiler dies on a token of 300000 characters", "a source that is one identifier of 300000 characters")


def c25(ctx, so):
    r = tlc.run("Ieee", workers=8, timeout=600)
    if not r.ok:
        raise RuntimeError("TLC failed on Ieee:\n" + r.tail())
    ctx.tlc(r)
    ctx.count("numbers_of_the_small_format", r.distinct)
    numbers = [float("inf"), float("-inf"), float("nan"), 0.0, -0.0, 0.1, 4.21, 4.25]
    numbers += [F.number(F.random_bits(ctx.rng)) for _ in range(ctx.n(12000, 150000))]
    numbers += [F.number(s << 63 | e << 52 | m) for s in (0, 1) for e in range(0, 2048, ctx.n(7, 1)) for m in (0, 1, 1 << 28, (1 << 52) - 1)]
    for k in range(0, len(numbers), 20000):
        F.check_numbers(ctx, so, numbers[k:k + 20000])


def c26(ctx, so):
    inputs = []
    while len(inputs) < ctx.n(8, 60):
        x = I.Input(ctx.rng, so)
        if x.fail:
            ctx.violation("a grammar accepted by mewa -g: " + x.fail, x.text, ".g")
            return
        inputs.append(x)
    worlds = [I.World(ctx.rng, ctx.rng.choice(inputs), a) for a in I.model_args(ctx, ctx.n(3, 4), ctx.n(1500, 20000))]
    worlds += [I.World(ctx.rng, ctx.rng.choice(inputs)) for _ in range(ctx.n(4000, 40000))]
    ctx.rng.shuffle(worlds)
    for k in range(0, len(worlds), 6000):
        if not ctx.full():
            I.check_cases(ctx, so, worlds[k:k + 6000], "command line")


def c27(ctx, so):
    cases = [S.Case(ctx.rng, 0, list(c)) for c in S.model_calls(ctx, ctx.n(4, 6), ctx.n(200, 3000))]
    cases += [S.Case(ctx.rng, ctx.rng.choice([3, 10, 30, 300])) for _ in range(ctx.n(400, 6000))]
    S.check_cases(ctx, so, cases, "calls of functions")


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13,
          "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23, "C24": c24, "C25": c25, "C26": c26, "C27": c27, "C28": c28, "C29": c29}


def long_texts(rng):
    """a grammar with long names and arguments"""
    g = L.structured_grammar(rng, 2)
    L.attributes(rng, g, call=0.7)
    for k in range(1, len(g["nts"])):
        if rng.random() < 0.5:
            g["nts"][k] += "_" * rng.choice([20, 100, 500])
    for p in g["prods"]:
        if p["call"] and rng.random() < 0.5:
            p["arg"] = '"%s"' % ("s" * rng.choice([60, 130, 1000, 2030, 2040, 2050, 3000]) + rng.choice(["a", "b"]))
    return g


def c30(ctx, so):
    none = dict(words=0, exhaustive=0, member=0)
    few = dict(words=4, exhaustive=4, member=0)
    Q.check_cases(ctx, so, lr_cases(ctx, L.structured_grammar, ctx.n(150, 4000), **few), "structured grammar")
    Q.check_cases(ctx, so, lr_cases(ctx, L.operator_grammar, ctx.n(80, 3000), **few), "operator grammar")
    Q.check_cases(ctx, so, lr_cases(ctx, L.random_grammar, ctx.n(300, 6000), **none), "random grammar")
    Q.check_cases(ctx, so, lr_cases(ctx, lambda r: L.random_grammar(r, empty=0.35), ctx.n(100, 3000), **none), "grammar with many empty productions")
    Q.check_cases(ctx, so, lr_cases(ctx, L.dangling_grammar, ctx.n(150, 2000), **few), "grammar with priorities")
    Q.check_cases(ctx, so, [C.make_case(ctx.rng, long_texts(ctx.rng), []) for _ in range(ctx.n(40, 400))], "long names and arguments")
    Q.check_cases(ctx, so, enumerated(ctx, 3, 2, 1, 2, ctx.n(150, None), **none), "enumerated grammar")


CHECKS["C30"] = c30


def c31(ctx, so):
    LD.run(ctx, so)


CHECKS["C31"] = c31
