"""Random lexers, their grammars and sources, for spec/Lexer.tla."""
import random

ESC = "#{}[]()*+?.-\\|&^$"
ALPHA = "aabbcAB01-+.<=>*/#:_"


def sset(chars, neg=False):
    return {"k": "set", "neg": neg, "cs": sorted(set(chars))}


def lit(s):
    """A literal string: one set for every byte, marked for the renderer."""
    q = [dict(sset([b]), txt=None) for b in s.encode("utf8")]
    return {"k": "seq", "q": q, "lit": s}


def nullable(r):
    if r["k"] == "set":
        return False
    if r["k"] == "seq":
        return all(nullable(x) for x in r["q"])
    if r["k"] == "alt":
        return any(nullable(x) for x in r["q"])
    if r["k"] == "rep":
        return r["lo"] == 0 or nullable(r["r"])
    return nullable(r["r"])


def rchar(ch):
    return "\\" + ch if ch in ESC else ch


CLASSES = {"d": [ord(c) for c in "0123456789"], "w": [ord(c) for c in "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"],
           "s": [9, 10, 11, 12, 13, 32]}


def render(r):
    """The expression as text of a grammar."""
    if "src" in r:
        return r["src"]
    if r["k"] == "seq":
        if "lit" in r:
            return "".join(rchar(c) for c in r["lit"])
        return "".join("(?:%s)" % render(x) if x["k"] == "alt" else render(x) for x in r["q"])
    if r["k"] == "alt":
        return "|".join(render(x) for x in r["q"])
    if r["k"] == "rep":
        b = render(r["r"])
        atom = r["r"]["k"] in ("set", "grp") or ("lit" in r["r"] and len(r["r"]["q"]) == 1)
        b = b if atom else "(?:%s)" % b
        m = {(0, 99): "*", (1, 99): "+", (0, 1): "?"}.get((r["lo"], r["hi"]))
        if not m:
            m = "{%d}" % r["lo"] if r["lo"] == r["hi"] else "{%d,}" % r["lo"] if r["hi"] == 99 else "{%d,%d}" % (r["lo"], r["hi"])
        return b + m + ("?" if r["lazy"] else "")
    if r["k"] == "grp":
        return "(%s%s)" % ("?:" if r.get("plain") else "", render(r["r"]))
    raise ValueError(r)


class Gen:
    def __init__(self, rng, quote):
        self.rng, self.quote = rng, quote

    def char(self):
        while True:
            c = self.rng.choice(ALPHA + "xyz\"'")
            if c != self.quote:
                return c

    def cset(self, first):
        rng = self.rng
        c = rng.random()
        if c < 0.12:
            r = sset([10, 13], True)
            r["src"] = "."
            return r
        if not first and c < 0.25:
            k = rng.choice("dws")
            r = sset(CLASSES[k])
            r["src"] = "\\" + k
            return r
        neg = rng.random() < (0.15 if first else 0.25)
        items, cs = [], []
        for _ in range(rng.randint(1, 3)):
            v = rng.random()
            if v < 0.55:
                lo, hi = rng.choice([("a", "c"), ("a", "z"), ("A", "Z"), ("0", "9"), ("0", "1"), ("b", "b"), ("x", "z")])
                items.append("%s-%s" % (lo, hi))
                cs += range(ord(lo), ord(hi) + 1)
            elif v < 0.9 or first:
                ch = self.char()
                if ch == "-":
                    continue
                if ch in "[]\\^" :
                    items.append("\\" + ch)
                elif ch in ESC and rng.random() < 0.5:
                    items.append("\\" + ch)
                else:
                    items.append(ch)
                cs.append(ord(ch))
            else:
                items.append(rng.choice([" ", "\\n", "\\t"]))
                cs.append({" ": 32, "\\n": 10, "\\t": 9}[items[-1]])
        if not items:
            items, cs = ["a"], [97]
        if rng.random() < 0.15:
            items.append("-")
            cs.append(45)
        r = sset(cs, neg)
        r["src"] = "[" + ("^" if neg else "") + "".join(items) + "]"
        return r

    def atom(self, depth, first, sel):
        rng = self.rng
        c = rng.random()
        if depth > 0 and c < 0.25:
            r = {"k": "grp", "sel": False, "r": self.expr(depth - 1, first, False)}
            r["plain"] = rng.random() < 0.5
            return r
        if c < 0.6:
            s = "".join(self.char() for _ in range(rng.choice([1, 1, 1, 2, 3])))
            if rng.random() < 0.04:
                s = "\u00e4"
            return lit(s)
        return self.cset(first)

    def rep(self, r):
        rng = self.rng
        lo, hi = rng.choice([(0, 99), (0, 99), (1, 99), (1, 99), (0, 1), (0, 1), (2, 2), (1, 2), (0, 2), (2, 99)])
        return {"k": "rep", "r": r, "lo": lo, "hi": hi, "lazy": rng.random() < 0.12}

    def repeated(self, r):
        return r["k"] == "rep" or any(self.repeated(x) for x in (r.get("q") or ([r["r"]] if "r" in r else [])))

    def seq(self, depth, first, sel):
        q = []
        for _ in range(self.rng.choice([1, 1, 2, 2, 3])):
            a = self.atom(depth, first, sel)
            if self.rng.random() < 0.4 and not (a["k"] == "seq" and len(a["lit"]) < len(a["q"])) and not nullable(a) and \
                    not self.repeated(a):
                a = self.rep(a)
            q.append(a)
            if not nullable(a):
                first = False
        return {"k": "seq", "q": q}

    def expr(self, depth, first, sel):
        if self.rng.random() < 0.2:
            return {"k": "alt", "q": [self.seq(depth, first, sel) for _ in range(2)]}
        return self.seq(depth, first, sel)

    def pattern(self):
        """(expression, number of the selected group or 0)"""
        rng = self.rng
        c = rng.random()
        if c < 0.35:
            return self.standard()
        while True:
            r = self.expr(2, True, True)
            if rng.random() < 0.3:
                # a delimited value, the selected group is the value
                a, b = lit(self.char()), lit(self.char())
                g = {"k": "grp", "sel": True, "r": self.expr(1, False, False), "plain": False}
                r = {"k": "seq", "q": [a, g, b]}
                if not nullable(r) and groups(r["q"][1]["r"]) >= 0:
                    return r, 1
            # a pattern matching nothing at all has no sense
            if not allnull(r):
                return r, 0

    def standard(self):
        rng = self.rng
        w = sset(CLASSES["w"])
        w["src"] = "[a-zA-Z_0-9]"
        a = sset([x for x in CLASSES["w"] if x > 57])
        a["src"] = "[a-zA-Z_]"
        d = sset(CLASSES["d"])
        d["src"] = rng.choice(["[0-9]", "[0123456789]"])
        star = lambda r: {"k": "rep", "r": r, "lo": 0, "hi": 99, "lazy": False}
        plus = lambda r: {"k": "rep", "r": r, "lo": 1, "hi": 99, "lazy": False}
        opt = lambda r: {"k": "rep", "r": r, "lo": 0, "hi": 1, "lazy": False}
        seq = lambda *q: {"k": "seq", "q": list(q)}
        k = rng.randint(0, 6)
        if k == 0:
            return seq(a, star(w)), 0
        if k == 1:
            return seq(plus(d)), 0
        if k == 2:
            return seq(opt(lit("-")), plus(d), {"k": "rep", "r": {"k": "grp", "sel": False, "plain": rng.random() < 0.5, "r": seq(lit("."), plus(d))},
                                                "lo": 0, "hi": 1, "lazy": False}), 0
        if k == 3:
            q = "'" if self.quote == '"' else '"'
            n = sset([ord(q)], True)
            n["src"] = "[^%s]" % q
            return seq(lit(q), {"k": "grp", "sel": True, "plain": False, "r": star(n)}, lit(q)), 1
        if k == 4:
            # a value spanning lines
            n = sset([ord(">")], True)
            n["src"] = "[^>]"
            return seq(lit("<"), {"k": "grp", "sel": True, "plain": False, "r": star(n)}, lit(">")), 1
        if k == 5:
            # first group not selected
            return seq({"k": "grp", "sel": False, "plain": False, "r": {"k": "alt", "q": [lit("#"), lit("::")]}},
                       {"k": "grp", "sel": True, "plain": False, "r": plus(w)}), 2
        return seq({"k": "rep", "r": sset([ord(c) for c in "+-*/<=>"]) | {"src": "[+*/<=>-]"}, "lo": 1, "hi": rng.choice([2, 99]), "lazy": False}), 0


def groups(r):
    if r["k"] == "set":
        return 0
    if r["k"] in ("seq", "alt"):
        return sum(groups(x) for x in r["q"])
    return groups(r["r"]) + (1 if r["k"] == "grp" and not r.get("plain") else 0)


def allnull(r):
    """The expression matches nothing but the empty string"""
    return False if r["k"] == "set" else all(allnull(x) for x in r["q"]) if r["k"] in ("seq", "alt") else allnull(r["r"])


def sample(rng, r):
    """A byte string that matches the expression"""
    if r["k"] == "set":
        if not r["neg"]:
            return bytes([rng.choice(r["cs"])])
        c = [x for x in (list(b"abcAB01 -+.<=>*/#:_xyz\"'") + [10, 9]) if x not in r["cs"]]
        return bytes([rng.choice(c)]) if c else b"!"
    if r["k"] == "seq":
        return b"".join(sample(rng, x) for x in r["q"])
    if r["k"] == "alt":
        return sample(rng, rng.choice(r["q"]))
    if r["k"] == "rep":
        n = rng.randint(r["lo"], min(r["hi"], r["lo"] + 3))
        return b"".join(sample(rng, r["r"]) for _ in range(n))
    return sample(rng, r["r"])


def clean(r):
    """The expression as the specification reads it"""
    if r["k"] == "set":
        return {"k": "set", "neg": r["neg"], "cs": list(r["cs"])}
    if r["k"] in ("seq", "alt"):
        return {"k": r["k"], "q": [clean(x) for x in r["q"]]}
    if r["k"] == "rep":
        return {"k": "rep", "r": clean(r["r"]), "lo": r["lo"], "hi": r["hi"], "lazy": r["lazy"]}
    return {"k": "grp", "sel": r["sel"], "r": clean(r["r"])}


# ---- lexers

KEYWORDS = ["a", "ab", "abc", "if", "then", "<", "<=", "<<", "<<=", "=", "==", "=>", "-", "--", "->", "+", "++", "*", "**", "*/", "/", "#", "##",
            ":", "::", ":=", "_", "0", "01", "1", "1.", ".", "..", "...", "x", "xy", "A", "(", ")", "[", "]", "{", "}", "|", "||", "^", "$", "?",
            "\u00e4", "\u00e4b", "&", "&&"]
COMMENTS = ["//", "#", "--", "--", ";", "##", "/", "\u00e4"]
BRACKETS = [("/*", "*/"), ("{-", "-}"), ("--[[", "]]"), ("<!--", "-->"), ("#", "#"), ("(*", "*)"), ("/+", "+/"), ("**", "**")]


def quoted(s, q):
    return q + s + q


def lexer(rng, indent=False, npat=None, simple=False, tabsizes=None):
    g = {"keywords": [], "patterns": [], "ignores": [], "brackets": [], "eolns": [], "indent": indent, "tabsize": rng.choice(tabsizes or [1, 2, 3, 4, 8]) if indent else 0}
    lines = []
    names = ["T%d" % k for k in range(6)]
    for k in range(npat if npat is not None else rng.choice([1, 1, 2, 2, 3, 4])):
        q = rng.choice("'\"")
        ge = Gen(rng, q)
        r, sel = ge.standard() if simple else ge.pattern()
        name = names[k] if k == 0 or rng.random() < 0.85 else rng.choice(names[:k])
        g["patterns"].append({"name": name, "r": r, "sel": sel > 0})
        lines.append("%s: %s%s;" % (name, quoted(render(r), q), " %d" % sel if sel else rng.choice(["", "", " 0"])))
    for _ in range(rng.choice([0, 0, 1, 2]) if not simple else 0):
        q = rng.choice("'\"")
        r, sel = Gen(rng, q).pattern()
        g["ignores"].append(r)
        lines.append("%% IGNORE %s;" % quoted(render(r), q))
    for b in rng.sample(BRACKETS, rng.choice([0, 0, 1, 1, 2])):
        g["brackets"].append(b)
        lines.append("%% COMMENT \"%s\" \"%s\";" % b)
    for c in rng.sample(COMMENTS, rng.choice([0, 0, 1, 1, 2])):
        g["eolns"].append(c)
        lines.append('%% COMMENT "%s";' % c)
    if rng.random() < 0.5:
        # the order of declarations counts within each kind only
        kinds = {}
        for l in lines:
            kinds.setdefault(" ".join(l.split()[:2]) + str(l.count('"')) if l.startswith("%") else "T", []).append(l)
        lines = []
        while any(kinds.values()):
            lines.append(rng.choice([v for v in kinds.values() if v]).pop(0))
    if indent:
        lines.insert(rng.randint(0, len(lines)), "%% INDENTL OPEN CLOSE NL %d;" % g["tabsize"])
    g["keywords"] = rng.sample(KEYWORDS, rng.choice([0, 1, 3, 5, 9] if not simple else [1, 2, 4]))
    head = ['% LANGUAGE "lex";', '% TYPESYSTEM "verifts";', '% CMDLINE "x";'] if rng.random() < 0.5 else ['% LANGUAGE "lex";', '% TYPESYSTEM "verifts";']
    prods = ["S = L (top);", "L = L T;", "L = ;"]
    for nm in sorted({p["name"] for p in g["patterns"]}) + (["OPEN", "CLOSE", "NL"] if indent else []):
        prods.append("T = %s (t);" % nm)
    for kw in g["keywords"]:
        prods.append('T = %s (k "%s");' % (quoted(kw, rng.choice("'\"")), kw))
    text = "\n".join(head + lines + prods) + "\n"
    return g, text


def comment(rng, g):
    if g["brackets"] and rng.random() < 0.5:
        b = rng.choice(g["brackets"])
        return b[0].encode() + rng.choice([b"", b" c ", b"c\n", b"\n\n", b" \t\nx y \n", b"a*b/c", b[0].encode()]) + (b[1].encode() if rng.random() < 0.95 else b"")
    if g["eolns"]:
        return rng.choice(g["eolns"]).encode() + rng.choice([b"", b"c", b" c d", b"*/"]) + (b"\n" if rng.random() < 0.95 else b"")
    return b"\n"


def source(rng, g, limit=70):
    out = b""
    n = rng.choice([1, 3, 6, 12, 20])
    for _ in range(n):
        c = rng.random()
        if c < 0.45:
            out += sample(rng, rng.choice(g["patterns"])["r"])
        elif c < 0.55 and g["ignores"]:
            out += sample(rng, rng.choice(g["ignores"]))
        elif c < 0.75 and g["keywords"]:
            out += rng.choice(g["keywords"]).encode()
        elif c < 0.85:
            out += comment(rng, g)
        elif c < 0.87:
            out += bytes([rng.choice(b"abcAB01-+.<=>*/#:_@~\x7f\xc3")])
        if rng.random() < 0.5:
            out += rng.choice([b" ", b" ", b"\n", b"\r\n", b"\t", b"  \n\n", b"\x01", b"\x0c"])
        if len(out) > limit:
            break
    return out.replace(b"\0", b" ")


def indented(rng, g, limit=90):
    """A source with indented lines"""
    out, cur = b"", [0]
    for k in range(rng.randint(1, 10)):
        c = rng.random()
        if c < 0.3:
            cur.append(cur[-1] + rng.choice([1, 1, 2, 4]))
        elif c < 0.6 and len(cur) > 1:
            del cur[rng.randint(1, len(cur) - 1):]
        w = cur[-1]
        if rng.random() < 0.12:
            w = rng.randint(0, 9)
        ws = b""
        while w > 0:
            if w >= g["tabsize"] and rng.random() < 0.4:
                ws += b"\t"
                w -= g["tabsize"]
            else:
                ws += b" "
                w -= 1
        v = rng.random()
        if v < 0.1:
            line = b""
        elif v < 0.2:
            line = comment(rng, g).rstrip(b"\n")
        else:
            line = b" ".join(rng.choice(g["keywords"]).encode() if g["keywords"] and rng.random() < 0.4 else
                             sample(rng, rng.choice(g["patterns"])["r"]) for _ in range(rng.choice([1, 1, 2, 3])))
            if rng.random() < 0.1:
                line += rng.choice([b" ", b""]) + comment(rng, g).rstrip(b"\n")
        out += ws + line + rng.choice([b"\n", b"\n", b"\n", b"\r\n", b" \n", b"\n\n", b"\n  \n"])
        if len(out) > limit:
            break
    if rng.random() < 0.4:
        out = out.rstrip()
    return out.replace(b"\0", b" ")
