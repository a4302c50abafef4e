"""Random grammars and sources for spec/LrMachine.tla, and their text as mewa reads it.

A grammar is {"terms": [{name, kw, text}], "nts": [name], "prods": [{l, r, prio, assoc, call, arg, argv, sf}]}; symbols are
numbers, terminals 1.., nonterminals 101.. . argv is the value driver/compile.lua prints for the argument arg."""
import itertools, random

LEXEMES = [("ID", "[A-Z][A-Za-z]*", 0, lambda r: r.choice("ABCX") + "".join(r.choice("abz") for _ in range(r.randint(0, 3)))),
           ("NUM", "[0-9]+", 0, lambda r: str(r.randint(0, 999))),
           ("STR", '["]([^"]*)["]', 1, lambda r: r.choice(["", "x", "a b", "//", ";"])),
           ("HEX", "[$][0-9a-f]+", 0, lambda r: "$" + r.choice("0af") + str(r.randint(0, 9))),
           ("TAG", "[#]([a-z]+)", 1, lambda r: r.choice(["a", "bc", "d"]))]
KEYWORDS = ["a", "b", "c", "d", "e", "(", ")", "[", "]", "+", "-", "*", ",", ";", "if", "else", "->", "=", "==", "<=", "."]
EPSILON = ["", "", "ε "]


def terminals(rng, n, lex=0.35):
    kws = rng.sample(KEYWORDS, n)
    lxs = rng.sample(LEXEMES, len(LEXEMES))
    res = []
    for k in range(n):
        if lxs and rng.random() < lex:
            l = lxs.pop()
            res.append({"name": l[0], "kw": False, "text": l[1], "sel": l[2]})
        else:
            res.append({"name": kws[k], "kw": True, "text": kws[k], "sel": 0})
    return res


ARGS = [("", "nil"), ("", "nil"), ("", "nil"), ('"s t"', '"s t"'), ("'q'", '"q"'), ("'d\"q'", '"d"q"'), ("\"it's\"", '"it\'s"'), ("12", "12"), ("0", "0"),
        ("refA", "@refA"), ("refB", "@refB"), ("{x=1, y='z'}", '{x=1,y="z"}'), ("{o = \"add\"}", '{o="add"}'), ("f1", "@f1"), ("refFalse", "false"), ("refNum", "7")]


def attributes(rng, g, call=0.6, sf=0.3, fail=0.0):
    """Attaches calls, scopes and steps to the productions."""
    for k, p in enumerate(g["prods"]):
        p.update(call="", arg="", argv="nil", sf="")
        if rng.random() < call or k == 0 and rng.random() < 0.8:
            p["call"] = rng.choice(["f%d" % k, "f1", "f2"])
            if rng.random() < fail:
                p["call"] = "fail%d" % (k % 3)
            p["arg"], p["argv"] = rng.choice(ARGS)
        if rng.random() < sf:
            p["sf"] = rng.choice(["step", "scope"]) if p["call"] else "step"
    return g


def finish(g):
    # keywords that occur nowhere are no terminals
    used = {x for p in g["prods"] for x in p["r"]}
    keep = [k for k, t in enumerate(g["terms"], 1) if not t["kw"] or k in used]
    num = {o: n for n, o in enumerate(keep, 1)}
    g["terms"] = [g["terms"][k - 1] for k in keep]
    if not g["terms"]:
        g["terms"] = [{"name": "ID", "kw": False, "text": LEXEMES[0][1], "sel": 0}]
    for p in g["prods"]:
        p["r"] = [x if x > 100 else num[x] for x in p["r"]]
    for p in g["prods"]:
        p.setdefault("prio", 0)
        p.setdefault("assoc", "")
        for key, v in (("call", ""), ("arg", ""), ("argv", "nil"), ("sf", "")):
            p.setdefault(key, v)
    return g


def well_formed(g):
    """Reachable in the sense mewa tests it, no duplicate productions."""
    seen = set()
    used = {x for p in g["prods"] for x in p["r"]}
    for p in g["prods"]:
        key = (p["l"], tuple(p["r"]))
        if key in seen:
            return False
        seen.add(key)
    if 101 in used or sum(p["l"] == 101 for p in g["prods"]) != 1 or g["prods"][0]["l"] != 101:
        return False
    lefts = {p["l"] for p in g["prods"]}
    return all(n in lefts for n in used if n > 100) and all(n in used for n in lefts if n != 101)


def random_grammar(rng, nts=None, nterm=None, maxrhs=4, empty=0.12, tries=200):
    for _ in range(tries):
        n = nts or rng.randint(1, 5)
        t = nterm or rng.randint(1, 5)
        prods = [{"l": 101, "r": [102]}] if rng.random() < 0.7 else \
                [{"l": 101, "r": [rng.choice([102, 101 + rng.randint(1, n), rng.randint(1, t)]) for _ in range(rng.randint(1, 3))]}]
        for k in range(n):
            for _ in range(rng.choice([1, 1, 2, 2, 3])):
                ln = 0 if rng.random() < empty else rng.choice([1, 1, 2, 2, 2, 3, 3, maxrhs])
                prods.append({"l": 102 + k, "r": [rng.randint(1, t) if rng.random() < 0.6 else 102 + rng.randint(0, n - 1) for _ in range(ln)]})
        if rng.random() < 0.3:
            tail = prods[1:]
            rng.shuffle(tail)
            prods = prods[:1] + tail
        g = {"terms": terminals(rng, t), "nts": ["S"] + ["N%d" % k for k in range(n)], "prods": prods}
        if well_formed(g):
            return finish(g)
    return random_grammar(rng, 2, 2)


def structured_grammar(rng, depth=3):
    """Grammars built of lists, options, blocks and alternatives, the way languages are."""
    t = rng.randint(4, 12)
    terms = terminals(rng, t, 0.3)
    fresh = list(range(1, t + 1))
    rng.shuffle(fresh)
    prods, names = [], ["S"]
    done = []

    def term():
        return fresh.pop() if fresh else rng.randint(1, t)

    def nt(n):
        names.append(n + str(len(names)))
        return 100 + len(names)

    def rule(l, *rs):
        for r in rs:
            prods.append({"l": l, "r": list(r)})

    def make(d):
        kind = rng.choice(["list", "list", "seplist", "opt", "alt", "block", "seq", "expr", "again"]) if d > 0 else "term"
        if kind == "term":
            return term()
        if kind == "again" and done:
            return rng.choice(done)
        me = nt({"list": "L", "seplist": "P", "opt": "O", "alt": "A", "block": "B", "seq": "Q", "expr": "E", "again": "G"}[kind])
        if kind == "list":
            x = make(d - 1)
            base = [] if rng.random() < 0.6 else [x]
            rule(me, [me, x] if rng.random() < 0.5 else [x, me], base)
        elif kind == "seplist":
            x, s = make(d - 1), term()
            rule(me, [me, s, x] if rng.random() < 0.5 else [x, s, me], [x])
        elif kind == "opt":
            rule(me, [make(d - 1)], [])
        elif kind == "alt":
            rule(me, *[[term()] + ([make(d - 1)] if rng.random() < 0.6 else []) for _ in range(rng.randint(2, 3))])
        elif kind == "block":
            o, c = term(), term()
            rule(me, [o, make(d - 1), c])
            if rng.random() < 0.3:
                rule(me, [o, me, c])
        elif kind == "seq":
            rule(me, [make(d - 1) for _ in range(rng.randint(2, 3))])
        else:
            a, op = make(d - 1), term()
            lo = nt("E")
            rule(me, [me, op, lo] if rng.random() < 0.5 else [lo, op, me], [lo])
            rule(lo, [a])
            if rng.random() < 0.5:
                rule(lo, [term(), me, term()])
        done.append(me)
        return me

    prods.append({"l": 101, "r": []})
    for _ in range(rng.randint(1, 2)):
        prods[0]["r"].append(make(depth))
    if rng.random() < 0.3:
        tail = prods[1:]
        rng.shuffle(tail)
        prods = prods[:1] + tail
    g = {"terms": terms, "nts": names, "prods": prods}
    return finish(g) if well_formed(g) else structured_grammar(rng, depth)


def chain_grammar(rng):
    """A chain of nonterminals, most with a production of one element, in any order: what is known of one end reaches the other step by step."""
    plain = rng.random() < 0.5     # not interrupted anywhere
    n = rng.randint(8, 28) if plain else rng.randint(4, 12)
    t = rng.randint(4, 10)
    fresh = list(range(1, t + 1))
    rng.shuffle(fresh)
    term = lambda: fresh.pop() if fresh else rng.randint(1, t)
    z = 102 + n
    rest = [{"l": z, "r": []}] + ([{"l": z, "r": [term()]}] if rng.random() < 0.8 else [])
    uses = False
    for k in range(n):
        last = k == n - 1
        r = [term()] if last and rng.random() < 0.7 else [] if last else [103 + k]
        if rng.random() < 0.15 and not plain:
            r = [term()] + r
        if r and rng.random() < (0.03 if plain else 0.2):
            r, uses = r + [z], True
        elif r and rng.random() < 0.12 and not plain:
            r, uses = [z] + r, True
        rest.append({"l": 102 + k, "r": r})
        if rng.random() < (0.1 if plain else 0.25):
            rest.append({"l": 102 + k, "r": [term()] + ([102 + rng.randrange(n)] if rng.random() < 0.3 else [])})
    start = {"l": 101, "r": [102] + ([term()] if rng.random() < 0.6 else []) + ([z] if not uses or rng.random() < 0.2 else [])}
    x = rng.random()
    if x < 0.6:
        rest.reverse()
    elif x < 0.8:
        rng.shuffle(rest)
    g = {"terms": terminals(rng, t), "nts": ["S"] + ["N%d" % k for k in range(n)] + ["Z"], "prods": [start] + rest}
    return finish(g) if well_formed(g) else chain_grammar(rng)


def nested_grammar(rng):
    """Bracketed terms between other elements."""
    t = 10
    terms = [{"name": k, "kw": True, "text": k, "sel": 0} for k in ("(", ")", "[", "]", "+", "-", ",", ";")] + \
            [{"name": l[0], "kw": False, "text": l[1], "sel": l[2]} for l in LEXEMES[:2]]
    e = 103
    prods = [{"l": 101, "r": [102]}]
    prods += [{"l": 102, "r": rng.choice([[9, e], [9, e, 10], [9, 9, e, 8, e], [e], [5, e, 9]])}]
    if rng.random() < 0.5:
        prods += [{"l": 102, "r": [102, 8] + rng.choice([[e], [9, e]])}]
    else:
        prods += [{"l": 102, "r": [6, 102]}]
    prods += [{"l": e, "r": rng.choice([[1, e, 2], [1, 1, e, 2], [1, e, 2, 9], [1, 9, e, 2]])}]
    if rng.random() < 0.6:
        prods += [{"l": e, "r": rng.choice([[3, e, 4], [3, e, 7, e, 4], [3, 104, e, 4]])}]
    prods += [{"l": e, "r": [10]}]
    if any(104 in p["r"] for p in prods):
        prods += [{"l": 104, "r": []}, {"l": 104, "r": [9]}]
    g = {"terms": terms, "nts": ["S", "T", "E", "O"][:4 if any(p["l"] == 104 for p in prods) else 3], "prods": prods}
    return finish(g) if well_formed(g) else nested_grammar(rng)


def deep_words(rng, g, count, depth):
    """Sentences with one path of the derivation as deep as wanted where the grammar is recursive."""
    d = mindepths(g)
    bynt = {}
    for p in g["prods"]:
        bynt.setdefault(p["l"], []).append(p)
    res = []
    for _ in range(count):
        left, right, x, goal = [], [], 101, rng.randint(depth // 2, depth)
        same = rng.random() < 0.5      # the same production again and again, or one drawn each time
        pick = {}

        def least(y):
            if y <= 100:
                return [y]
            p = min(bynt[y], key=lambda q: max([d[z] for z in q["r"] if z > 100], default=0))
            return [z for s in p["r"] for z in least(s)]
        for lev in range(goal):
            ps = [p for p in bynt[x] if any(y > 100 for y in p["r"])]
            if not ps:
                break
            if lev > goal - 5:
                p = rng.choice(bynt[x])
            else:
                p = pick.setdefault(x, rng.choice(ps)) if same and rng.random() < 0.95 else rng.choice(ps)
            at = [k for k, y in enumerate(p["r"]) if y > 100]
            if not at:
                break
            k = rng.choice(at)
            left += [z for y in p["r"][:k] for z in least(y)]
            right = [z for y in p["r"][k + 1:] for z in least(y)] + right
            x = p["r"][k]
        w = left + least(x) + right
        if len(w) <= 8 * depth:
            res.append(mutate(rng, w, len(g["terms"])) if rng.random() < 0.2 else w)
    return res


def spread(rng, g):
    """Other values for the priorities, the order kept: the whole range up to the maximum can be used."""
    if rng.random() < 0.5:
        top = max(p.get("prio", 0) for p in g["prods"])
        vals = [0] + sorted(rng.sample(range(1, 32), top))
        for p in g["prods"]:
            if p.get("prio"):
                p["prio"] = vals[p["prio"]]
    return g


def operator_grammar(rng):
    """Expressions with priorities and associativity; some tables leave conflicts undecided."""
    nb, np, ns = rng.randint(1, 4), rng.randint(0, 2), rng.randint(0, 1)
    t = nb + np + ns + 3
    terms = terminals(rng, t, 0.0)
    i = rng.randint(0, t - 1)
    terms[i] = {"name": "ID", "kw": False, "text": LEXEMES[0][1], "sel": 0}
    ops = [k + 1 for k in range(t) if k != i]
    rng.shuffle(ops)
    op, cl = ops.pop(), ops.pop()
    E = 102
    levels = rng.randint(1, 4)
    lassoc = {l: rng.choice("LR") for l in range(1, levels + 1)}
    prods = [{"l": 101, "r": [E]}]
    hole = rng.random()

    def pr():
        l = rng.randint(1, levels)
        a = lassoc[l] if rng.random() < 0.9 else rng.choice("LR")
        if hole < 0.08 and rng.random() < 0.4:
            return {"prio": 0, "assoc": ""}
        if hole > 0.95 and rng.random() < 0.4:
            return {"prio": l, "assoc": ""}
        return {"prio": l - 1 if hole > 0.5 and hole < 0.6 else l, "assoc": a}
    for k in range(nb):
        prods.append({"l": E, "r": [E, ops.pop(), E], **pr()})
    for k in range(np):
        prods.append({"l": E, "r": [ops.pop(), E], **pr()})
    for k in range(ns):
        prods.append({"l": E, "r": [E, ops.pop()], **pr()})
    if rng.random() < 0.3:      # ternary, or an operator that is both prefix and binary
        if rng.random() < 0.5 and nb > 1:
            a, b = prods[1]["r"][1], prods[2]["r"][1]
            prods = prods[:1] + prods[3:] + [{"l": E, "r": [E, a, E, b, E], **pr()}]
        else:
            p = {"l": E, "r": [prods[1]["r"][1], E], **pr()}
            if not any(x["r"] == p["r"] for x in prods):
                prods.append(p)
    prods.append({"l": E, "r": [op, E, cl]})
    prods.append({"l": E, "r": [i + 1]})
    tail = prods[1:]
    rng.shuffle(tail)
    return finish(spread(rng, {"terms": terms, "nts": ["S", "E"], "prods": prods[:1] + tail}))


def binary_grammar(rng):
    """Binary operators and brackets only, every production with its own call, priorities complete."""
    nb = rng.randint(2, 5)
    terms = terminals(rng, nb + 3, 0.0)
    terms[nb + 2] = {"name": "ID", "kw": False, "text": LEXEMES[0][1], "sel": 0}
    assoc = {l: rng.choice("LR") for l in range(1, 5)}
    prods = [{"l": 102, "r": [102, k + 1, 102], "prio": l, "assoc": assoc[l]} for k in range(nb) for l in [rng.randint(1, 4)]]
    prods += [{"l": 102, "r": [nb + 1, 102, nb + 2]}, {"l": 102, "r": [nb + 3]}]
    rng.shuffle(prods)
    g = finish(spread(rng, {"terms": terms, "nts": ["S", "E"], "prods": [{"l": 101, "r": [102]}] + prods}))
    for k, p in enumerate(g["prods"]):
        p.update(call="f%d" % k, arg="", argv="nil", sf=rng.choice(["", "step", "scope"]))
    return g


def dangling_grammar(rng):
    """Statements with shift-reduce conflicts decided by priorities (dangling else) or not."""
    g = operator_grammar(rng)
    terms = g["terms"]
    free = [k for k in KEYWORDS if k not in [x["text"] for x in terms]]
    a, b, c = rng.sample(free, 3)
    n = len(terms)
    terms += [{"name": x, "kw": True, "text": x, "sel": 0} for x in (a, b, c)]
    S = 103
    g["nts"].append("Stm")
    g["prods"][0]["r"] = [S]
    pr = [rng.choice([(0, ""), (1, "L"), (2, "L"), (2, "R"), (1, "R"), (3, "")]) for _ in range(2)]
    g["prods"] += [{"l": S, "r": [n + 1, 102, S], "prio": pr[0][0], "assoc": pr[0][1]},
                   {"l": S, "r": [n + 1, 102, S, n + 2, S], "prio": pr[1][0], "assoc": pr[1][1]},
                   {"l": S, "r": [102, n + 3]}]
    return finish(g)


def enumerate_grammars(maxprods, rhs, nts=1, nterm=2):
    """Every grammar S=N0; N0=...; with up to maxprods further productions with right sides up to the length rhs."""
    syms = list(range(1, nterm + 1)) + [102 + k for k in range(nts)]
    rights = [()] + [q for ln in range(1, rhs + 1) for q in itertools.product(syms, repeat=ln)]
    cands = [(102 + k, r) for k in range(nts) for r in rights]
    terms = [{"name": KEYWORDS[k], "kw": True, "text": KEYWORDS[k], "sel": 0} for k in range(nterm)]
    for n in range(1, maxprods + 1):
        for c in itertools.combinations(cands, n):
            g = {"terms": terms, "nts": ["S"] + ["N%d" % k for k in range(nts)],
                 "prods": [{"l": 101, "r": [102]}] + [{"l": l, "r": list(r)} for l, r in c]}
            if well_formed(g):
                yield g


# ---- text of a grammar

def quote(rng, s):
    return '"%s"' % s if "'" in s or '"' not in s and rng.random() < 0.6 else "'%s'" % s


def prio_text(rng, p):
    if not p["prio"] and not p["assoc"]:
        return ""
    if not p["assoc"]:
        return "/%d" % p["prio"]
    forms = ["/%s%d" % (p["assoc"], p["prio"]), "/%d%s" % (p["prio"], p["assoc"])]
    if not p["prio"]:
        forms.append("/" + p["assoc"])
    return rng.choice(forms)


def production_text(rng, g, p):
    rhs = []
    for x in p["r"]:
        rhs.append(g["nts"][x - 101] if x > 100 else quote(rng, g["terms"][x - 1]["text"]) if g["terms"][x - 1]["kw"] else g["terms"][x - 1]["name"])
    body = " ".join(rhs) if rhs else rng.choice(EPSILON)
    sf = {"": "", "step": ">>", "scope": "{}"}[p["sf"]]
    att = (sf + (rng.choice(["", " "]) if sf else "") + p["call"] + (" " + p["arg"] if p["arg"] else "")) if p["call"] or sf else ""
    return body + (rng.choice([" (", " ( "]) + att + ")" if att else "")


def grammar_text(rng, g, header=None, shuffle=False):
    """Declarations in an order drawn at random if shuffle; patterns keep their order, productions theirs."""
    lex = ["%s : %s%s;" % (t["name"], ("'%s'" if '"' in t["text"] else '"%s"') % t["text"], " %d" % t["sel"] if t["sel"] else "")
           for t in g["terms"] if not t["kw"]]
    head = header if header is not None else ['% LANGUAGE "gen";', '% TYPESYSTEM "verifts";', '% COMMENT "//";', '% COMMENT "/*" "*/";']
    prods = []
    last = None
    for p in g["prods"]:
        pt = prio_text(rng, p)
        if last is not None and last == (p["l"], pt) and rng.random() < 0.4:
            prods[-1] = prods[-1][:-1] + "\n   | " + production_text(rng, g, p) + ";"
        else:
            prods.append("%s%s %s %s;" % (g["nts"][p["l"] - 101], pt, rng.choice(["=", "=", "→"]), production_text(rng, g, p)))
        last = (p["l"], pt)
    if shuffle:
        lists = [list(head), lex, prods]
        res = []
        while any(lists):
            l = rng.choice([x for x in lists if x])
            res.append(l.pop(0))
    else:
        res = list(head) + lex + prods
    return "\n".join(res) + "\n"


# ---- sources

def mindepths(g):
    d = {p["l"]: None for p in g["prods"]}
    changed = True
    while changed:
        changed = False
        for p in g["prods"]:
            if all(x <= 100 or d[x] is not None for x in p["r"]):
                v = 1 + max([d[x] for x in p["r"] if x > 100], default=0)
                if d[p["l"]] is None or v < d[p["l"]]:
                    d[p["l"]] = v
                    changed = True
    return d


def sentence(rng, g, depth, d=None, limit=60):
    """A random sentence, or None when there is none (or it gets too long)."""
    d = d or mindepths(g)
    if d[101] is None:
        return None
    bynt = {}
    for p in g["prods"]:
        if all(x <= 100 or d[x] is not None for x in p["r"]):
            bynt.setdefault(p["l"], []).append((1 + max([d[x] for x in p["r"] if x > 100], default=0), p))
    out = []

    def derive(x, dep):
        if len(out) > limit:
            return
        if x <= 100:
            out.append(x)
            return
        cands = [p for md, p in bynt[x] if md <= dep] or [p for md, p in bynt[x] if md == d[x]]
        for y in rng.choice(cands)["r"]:
            derive(y, dep - 1)
    derive(101, depth)
    return out if len(out) <= limit else None


def mutate(rng, w, nterm):
    w = list(w)
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.randint(0, len(w))
        c = rng.random()
        if c < 0.35 or not w:
            w.insert(k, rng.randint(1, nterm))
        elif c < 0.6:
            del w[min(k, len(w) - 1)]
        elif c < 0.8:
            w[min(k, len(w) - 1)] = rng.randint(1, nterm)
        else:
            w = w[:k]
    return w


def words(rng, g, count, depth=8, limit=60, exhaustive=0):
    """Sources as token sequences without doublets: sentences, near misses and all short ones."""
    n = len(g["terms"])
    res = {}
    if exhaustive:
        ln = 0
        while ln == 0 or len(res) + n ** ln <= exhaustive:
            for q in itertools.product(range(1, n + 1), repeat=ln):
                res[q] = 1
            ln += 1
    d = mindepths(g)
    for _ in range(count * 3):
        if len(res) >= count + exhaustive:
            break
        w = sentence(rng, g, rng.randint(2, depth), d, limit)
        if w is None:
            w = [rng.randint(1, n) for _ in range(rng.randint(0, 5))]
        if rng.random() < 0.5:
            w = mutate(rng, w, n)
        res[tuple(w)] = 1
    return [list(w) for w in res]


SEPS = [" ", " ", " ", "  ", "\n", "\t", "\r\n", "\n\n ", " // note\n", " /* c */ ", "/* a\nb */"]


def source(rng, g, w, plain=False):
    """(text, tokens with value and line, line of the end)"""
    out, line, toks = [], 1, []

    def sep(k):
        nonlocal line
        s = " " if plain else rng.choice(SEPS)
        line += s.count("\n")
        out.append(s)
    if not plain and rng.random() < 0.3:
        sep(0)
    for x in w:
        t = g["terms"][x - 1]
        if t["kw"]:
            txt = val = t["text"]
        else:
            lx = next(l for l in LEXEMES if l[0] == t["name"])
            val = lx[3](rng)
            if g.get("long") and lx[0] == "ID":
                val += "z" * rng.choice([60, 500, 4000, 4060, 5000])
            txt = {"STR": '"%s"' % val, "TAG": "#" + val}.get(lx[0], val)
        toks.append({"t": x, "v": val, "line": line})
        out.append(txt)
        sep(1)
    if w and rng.random() < 0.2 and out[-1] != " ":
        s = out.pop()
        line -= s.count("\n")
    if rng.random() < 0.1:
        out.append("// end")
    return "".join(out), toks, line
