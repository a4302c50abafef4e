"""Conformance of the reader of grammars with spec/Grammar.tla."""
import concurrent.futures, json, os, re, shutil, tempfile

import lexgen, lrgen, proc, tlc
from ctx import HERE
TPL = "return %automaton%\n"

DRIVER = os.path.join(HERE, "driver", "desc.lua")

# ---- tokens

LEX = re.compile(r"""(?P<ws>\s+)|(?P<com>//[^\n]*|\#[^\n]*|/\*.*?\*/)|(?P<str>"(?:[^\\"\n]|\\[^"\n])*"|'(?:[^\\'\n]|\\[^'\n])*')|(?P<prio>[0-9]+[LR])|(?P<num>[0-9]+)
|(?P<call>[a-zA-Z_][a-zA-Z_0-9]*(?:\.[a-zA-Z_][a-zA-Z_0-9]*)+)|(?P<id>[a-zA-Z_][a-zA-Z_0-9]*)|(?P<p>\{\}|>>|[%/=:;{},()|→ε])""", re.S | re.X)
PUNCT = {"→": "->", "ε": "eps"}


def tokenize(text):
    pos, out = 0, []
    while pos < len(text):
        m = LEX.match(text, pos)
        if not m:
            raise RuntimeError("no token of the grammar language at %r" % text[pos:pos + 20])
        pos = m.end()
        if m.lastgroup in ("ws", "com"):
            continue
        out.append(token(m.group()))
    return out


def token(t):
    m = LEX.match(t)
    k = m.lastgroup if m and m.end() == len(t) else "err"
    v, q = t, ""
    if k == "p":
        k = PUNCT.get(t, t)
    elif k == "str":
        v, q = t[1:-1], t[0]
    return {"k": k, "v": v, "q": q, "text": t}


def declarations(toks):
    """Splits a list of tokens at the ends of declarations."""
    out, cur = [], []
    for t in toks:
        cur.append(t)
        if t["k"] == ";":
            out.append(cur)
            cur = []
    return out + ([cur] if cur else [])


# ---- rendering

FREE = {";", ":", "=", "(", ")", "|", ","}
WORDS = ["x", "foo bar", "a : b;", "% 'x", '"', "it's", "S = A", "**", "-- 1", "", "\\n", "[[x]]", "{}", "100%", "ä"]
ATTRS = ["rule", "descr", "a", "B2", "_x", "end", "function", "1st", "nil", "type", "value", "rules", "Name"]


def comment(rng, attributes):
    """(text, lines)"""
    def line():
        t = rng.choice(WORDS) if rng.random() < 0.7 else " ".join(rng.sample(WORDS, 2))
        t = t.strip()
        if attributes and rng.random() < 0.6:
            n = rng.choice(ATTRS)
            return {"n": n, "t": t}, rng.choice(["@", "@ ", " @"]) + n + (" " + t if t else "")
        return {"n": "", "t": t}, t
    if rng.random() < 0.6:
        l, t = line()
        return rng.choice(["#", "//"]) + rng.choice(["", " ", "\t"]) + t + rng.choice(["\n", "\n", "\r\n"]), [l]
    ls = [line() for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    if rng.random() < 0.3 and ls:
        ls.insert(0, ({"n": "", "t": ""}, ""))
    while ls and ls[-1][0] == {"n": "", "t": ""}:
        ls.pop()
    ls = [(l, t.replace("*/", "")) for l, t in ls]
    return "/*" + "".join(rng.choice([" ", "", "\t"]) + t + rng.choice(["", " "]) + (rng.choice(["\n", "\r\n"]) if i + 1 < len(ls) else "") for i, (l, t) in enumerate(ls)) + \
        rng.choice(["", " ", "\n"]) + "*/", [l for l, _ in ls]


def render(rng, toks, attributes=False, reserved=0.0):
    """Text of a list of tokens with white space and comments between; gives the tokens their lines and comments. With attributes
    declarations and alternatives start on lines of their own."""
    out, line, start = "", 1, True
    for i, t in enumerate(toks):
        sep, cm = "", []
        if i > 0 and toks[i - 1]["k"] == "err":  # an open quote ends with the line
            out, line = out + "\n", line + 1
        first = attributes and (start or t["k"] == "|")
        if first:
            names = set()
            while rng.random() < 0.5:
                c, ls = comment(rng, True)
                if any(l["n"] in names for l in ls) or len({l["n"] for l in ls if l["n"]}) < sum(1 for l in ls if l["n"]):
                    continue
                names |= {l["n"] for l in ls}
                names.discard("")
                if reserved and rng.random() < reserved:
                    n = rng.choice(["op", "name", "pattern", "open", "close", "tabsize", "nl", "select", "priority", "left", "right", "scope", "call", "line"])
                    c, ls = "# @%s x\n" % n, [{"n": n, "t": "x"}]
                sep += c + rng.choice(["", "\n", " "])
                cm += ls
            if out and (out + sep)[-1] != "\n":
                sep = sep + "\n" if sep else "\n"
            if out and not out.endswith("\n") and "\n" not in sep[:1]:
                sep = "\n" + sep
        else:
            x = rng.random()
            need = i > 0 and not (toks[i - 1]["k"] in FREE or t["k"] in FREE)
            if t["k"] == "err":
                sep = " "
            elif need or x < 0.7:
                sep = rng.choice([" ", " ", " ", "  ", "\t", "\n", "\r\n", "\n\n "])
            if x < 0.07:
                c, _ = comment(rng, False)
                sep = " " + c + " "
        line += sep.count("\n")
        t["l"], t["cm"] = line, cm
        out += sep + t["text"]
        start = t["k"] == ";"
    return out + rng.choice(["\n", "\n", "", "\r\n", " # end", " // end\n", "\n/* end */"])


# ---- texts

BADPAT = ["[a-z", "(ab", "*a", "a)", "a{2", "[b-a]"]
STRINGS = ["gen", "a b", 'a "b"', "c\\d", "it's", "%x%", "-", "ä", "\\n"]


def text_of(rng, w):
    return '"%s"' % w if '"' not in w else "'%s'" % w


def header(rng):
    out = []
    for c in rng.sample(["LANGUAGE", "TYPESYSTEM", "CMDLINE", "language", "Cmdline", "typeSystem"], rng.randint(0, 4)):
        out.append("%% %s %s;" % (c, rng.choice(["gen", "17", text_of(rng, rng.choice(STRINGS))])))
    for c in rng.sample(['COMMENT "//";', 'COMMENT "/*" "*/";', 'comment "#" ;', "COMMENT '\"';", "COMMENT '<!--' '-->';", "COMMENT ab cd;",
                         "BAD BADTOKEN;", "bad 'x y';", "Bad B2;", "IGNORE '[ ]+';", "Ignore xyz;", "ignore \"--[^\\n]*\";", "IGNORE 55;"], rng.randint(0, 5)):
        out.append("% " + c)
    if rng.random() < 0.3:
        out.append("%% INDENTL %s %s %s %s;" % (*rng.sample(["OPEN", "CLOSE", "NL", "INDENT", "_"], 3), rng.choice(["4", "8", "1", "'2'", "0"])))
    rng.shuffle(out)
    return out


CALLS = ["f", "g 5", "h \"x\"", "k 'a \"b\"'", "m.n", "m.n o.p", "f {a=1}", "g {a=b, c='d', e=\"f\"}", "f g", ">> f", "{} m.n 'x'", ">>", "{}", "f \"a'b\"", "h ''", "k '\\n'"]


def base(rng):
    """Declarations of a grammar that is well-formed, as lists of tokens."""
    x = rng.random()
    if x < 0.25:
        text = lexgen.lexer(rng, rng.random() < 0.3, simple=rng.random() < 0.7)[1]
    else:
        g = (lrgen.operator_grammar(rng) if x < 0.4 else lrgen.structured_grammar(rng, 2) if x < 0.5 else lrgen.random_grammar(rng))
        text = lrgen.grammar_text(rng, g, header(rng), shuffle=rng.random() < 0.3)
    return declarations(tokenize(text))


def flat(decls):
    return [dict(t) for d in decls for t in d]


def calls(rng, toks):
    """Other calls in some of the productions."""
    out, i = [], 0
    while i < len(toks):
        if toks[i]["k"] == "(":
            j = i
            while j < len(toks) and toks[j]["k"] not in (")", ";"):
                j += 1
            if rng.random() < 0.5 and j < len(toks):
                out += [token("(")] + tokenize(rng.choice(CALLS)) + [token(")")]
                i = j + 1
                continue
        out.append(toks[i])
        i += 1
    return out


ODDPRIO = ["L31", "L32", "32L", "31R", "L", "R", "L0", "R0", "5", "0", "00007", "31", "32", "65537R", "4294967297L", "4294967298", "L1x", "abc", "LR", "9", "L5", "9999999999999999999", "L04"]
INSERT = ["%", "/", "=", "→", ":", ";", "ε", "{", "}", ",", "(", ")", "|", ">>", "{}", "x", "L", "5", "3L", "a.b", "'x'", '"A"', "$", "@", "-5", "?", "\\"]


def mutate(rng, decls):
    """One change of the text."""
    decls = [list(d) for d in decls]
    x = rng.random()
    n = len(decls)
    k = rng.randrange(n)
    toks = decls[k]
    j = rng.randrange(len(toks))
    ids = [t for d in decls for t in d if t["k"] == "id"]
    strs = [t for d in decls for t in d if t["k"] == "str"]
    heads = [d[0] for d in decls if d[0]["k"] == "id"]
    if x < 0.1:
        del decls[k]
    elif x < 0.16:
        decls.insert(rng.randint(0, n), [dict(t) for t in toks])
    elif x < 0.22:
        m = rng.randrange(n)
        decls[k], decls[m] = decls[m], decls[k]
    elif x < 0.32:
        del toks[j]
    elif x < 0.36:
        toks.insert(j, dict(toks[j]))
    elif x < 0.40:
        m = rng.randrange(len(toks))
        toks[j], toks[m] = toks[m], toks[j]
    elif x < 0.50:
        t = token(rng.choice(INSERT))
        if rng.random() < 0.5:
            toks.insert(j, t)
        else:
            toks[j] = t
    elif x < 0.56:
        toks.insert(j, dict(rng.choice(rng.choice(decls) or [token("x")])))
    elif x < 0.68 and ids:
        # another name at one place
        t = rng.choice([t for t in toks if t["k"] == "id"] or ids)
        y = dict(rng.choice(ids)) if rng.random() < 0.8 else token("UNKNOWN")
        t.update(y)
    elif x < 0.73 and heads:
        # a declaration gets the name of another
        rng.choice(heads).update(dict(rng.choice(heads)))
    elif x < 0.78 and heads and strs:
        rng.choice(strs).update(token('"%s"' % rng.choice(heads)["text"]))
    elif x < 0.88:
        # priorities
        ps = [d for d in decls if len(d) > 2 and d[0]["k"] == "id" and d[1]["k"] in ("=", "->", "/")]
        if ps:
            d = rng.choice(ps)
            if d[1]["k"] == "/":
                del d[1:3]
            d[1:1] = [token("/"), *tokenize(rng.choice(ODDPRIO))]
    elif x < 0.92:
        ps = [d for d in decls if len(d) > 2 and d[1]["k"] == ":" and d[2]["k"] == "str"]
        if ps:
            rng.choice(ps)[2].update(token("'%s'" % rng.choice(BADPAT)))
    elif x < 0.96:
        # an argument of a command
        ps = [d for d in decls if d[0]["k"] == "%" and len(d) > 2]
        if ps:
            d = rng.choice(ps)
            if rng.random() < 0.5 and len(d) > 3:
                del d[-2]
            else:
                d.insert(len(d) - 1, token(rng.choice(["x", "5", "'y'", '""'])))
    else:
        toks[j] = token(rng.choice(['"', "'"]))
        toks[j]["k"] = "err"
    return [d for d in decls if d]


NAMES = {"and", "break", "do", "else", "elseif", "end", "false", "for", "function", "goto", "if", "in", "local", "nil", "not", "or", "repeat", "return",
         "then", "true", "until", "while"}


def usable(toks):
    """False for texts of which the verdict depends on what is not specified: patterns not known to be proper, empty ones, numbers
    of more than nine digits where they count."""
    good = re.compile(r"[A-Za-z0-9_]+$")
    run = 0
    for i, t in enumerate(toks):
        prev = toks[i - 1] if i else None
        if prev and prev["k"] == ":" and t["k"] == "str" or \
           i > 1 and prev["k"] == "id" and prev["v"].upper() == "IGNORE" and toks[i - 2]["k"] == "%" and t["k"] == "str":
            if t["v"] in BADPAT:
                t["ok"] = False
            elif not t["v"] or not (t.get("pat") or good.match(t["v"])):
                return False
        if t["k"] == "num" and len(t["v"]) > 9 and not (prev and prev["k"] == "/"):
            return False
        run = run + 1 if t["k"] in ("id", "str") else 0
        if run > 14:
            return False
    return True


def mark_patterns(decls):
    for d in decls:
        if len(d) > 2 and d[1]["k"] == ":" and d[2]["k"] == "str":
            d[2]["pat"] = True
        if len(d) > 2 and d[1]["v"].upper() == "IGNORE":
            d[2]["pat"] = True


def make_case(rng, mode, mutations):
    while True:
        decls = base(rng)
        mark_patterns(decls)
        toks = calls(rng, flat(decls))
        decls = declarations(toks)
        for _ in range(mutations):
            if decls:
                decls = mutate(rng, decls)
        toks = flat(decls)
        if not usable(toks):
            continue
        text = render(rng, toks, mode == "l" and rng.random() < 0.8, 0.04)
        if "\0" in text:
            continue
        return {"mode": mode, "toks": toks, "text": text}


# ---- texts changed character by character

GRAMMAR_LEXER = {
    "keywords": ["%", "/", "=", "→", ":", ";", "ε", "{", "}", ",", "(", ")", "|", ">>", "{}"], "brackets": [["/*", "*/"]], "eolns": ["//", "#"],
    "ignores": [], "indent": False, "tabsize": 8}
SETS = {"alpha": [*range(65, 91), *range(97, 123), 95], "digit": list(range(48, 58))}


def _set(cs, neg=False):
    return {"k": "set", "cs": cs, "neg": neg}


def _rep(r, lo=0, hi=99):
    return {"k": "rep", "r": r, "lo": lo, "hi": hi, "lazy": False}


def _seq(*q):
    return {"k": "seq", "q": list(q)}


def _string(q):
    body = _rep({"k": "alt", "q": [_set([92, q, 10], True), _seq(_set([92]), _set([q, 10], True))]})
    return _seq(_set([q]), {"k": "group", "sel": True, "r": body}, _set([q]))


IDENT = _seq(_set(SETS["alpha"]), _rep(_set(SETS["alpha"] + SETS["digit"])))
PATTERNS = [("id", IDENT, False), ("num", _rep(_set(SETS["digit"]), 1), False), ("prio", _seq(_rep(_set(SETS["digit"]), 1), _set([76, 82])), False),
            ("dq", _string(34), True), ("sq", _string(39), True),
            ("call", _seq(_rep(_set([45]), 0, 1), IDENT, _rep(_seq(_set([46]), IDENT))), False)]
ALPHABET = list("aZx09_ \t\n;:=(){}|>,/%\"'#*→ε-LR.$?\\&ä") + ["//", "/*", "*/", "{}", ">>", "\x01", "\r\n", "3L", "L1", "S", "''", '"a"', "@x", "\xe2", "+"]


def char_case(rng):
    """A text changed by characters. Its tokens are given by scan() as the specification of the lexer has them."""
    while True:
        decls = base(rng)
        mark_patterns(decls)
        toks = calls(rng, flat(decls))
        good = {t["v"] for t in toks if t.get("pat")}
        text = render(rng, toks)
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            i = rng.randrange(len(text) + 1)
            x = rng.random()
            if x < 0.3:
                text = text[:i] + text[i + rng.choice([1, 1, 1, 2, 5]):]
            elif x < 0.6:
                text = text[:i] + rng.choice(ALPHABET) + text[i:]
            elif x < 0.8:
                text = text[:i] + rng.choice(ALPHABET) + text[i + 1:]
            elif x < 0.9:
                text = text[:i]
            else:
                j = rng.randrange(len(text) + 1)
                text = text[:i] + text[j:j + rng.randint(1, 12)] + text[i:]
        toks = scan(text)
        if "\0" not in text and text_usable(toks, good):
            return {"mode": "n" if any(t["k"] == "call" and "-" in t["v"] for t in toks) else rng.choice("ng"), "toks": toks, "text": text}


def text_usable(toks, good):
    for t in toks:
        if t["k"] == "str" and re.search(r"\\[^nd]", t["v"]) and t["v"] not in good:
            return False  # an argument has to be a Lua value
        if t["k"] == "str" and t["v"][:1] == " " and t["v"] not in good:
            return False  # a keyword that never occurs: may be rejected or not
        if t["k"] == "str" and t["v"] in good:
            t["pat"] = True
    return usable(toks)


SCAN = re.compile(r"""(?P<ws>[\x01-\x20]+)|(?P<com>//[^\n]*|\#[^\n]*|/\*.*?\*/)|(?P<open>/\*)|(?P<str>"(?:[^\\"\n]|\\[^"\n])*"|'(?:[^\\'\n]|\\[^'\n])*')|(?P<prio>[0-9]+[LR])|(?P<num>[0-9]+)
|(?P<call>-[a-zA-Z_][a-zA-Z_0-9]*(?:\.[a-zA-Z_][a-zA-Z_0-9]*)*|[a-zA-Z_][a-zA-Z_0-9]*(?:\.[a-zA-Z_][a-zA-Z_0-9]*)+)|(?P<id>[a-zA-Z_][a-zA-Z_0-9]*)|(?P<p>\{\}|>>|[%/=:;{},()|→ε])""", re.S | re.X)


def scan(text):
    """Tokens with their lines; ends with a token of kind err at what is no token."""
    pos, line, out = 0, 1, []
    while pos < len(text):
        m = SCAN.match(text, pos)
        g = m.lastgroup if m else None
        if g not in ("ws", "com"):
            t = token(m.group()) if m and g != "open" else {"k": "err", "v": text[pos], "q": "", "text": text[pos]}
            if g == "call":
                t["k"] = "call"
            out.append(dict(t, l=line, cm=[], n="dq" if t["q"] == '"' else "sq" if t["q"] else ""))
            if t["k"] == "err":
                break
        pos = m.end()
        line += m.group().count("\n")
    return out


def lexed(ctx, cases):
    """Are the tokens of the texts those the specification of the lexer has for the lexer of grammars? (TlcResult)"""
    import lexcheck
    runs = []
    for c in cases:
        end = c["toks"][-1] if c["toks"] else {"k": ""}
        toks = []
        for t in c["toks"]:
            if t["k"] != "err":
                pattern = t["k"] in ("id", "num", "prio", "str", "call")
                toks.append({"n": (t["n"] if t["k"] == "str" else t["k"]) if pattern else "'" + t["text"], "v": list(t["v"].encode()) if pattern else [],
                             "line": t["l"] if pattern else 0})
        runs.append({"src": list(c["text"].encode()), "obs": {"st": "bad" if end["k"] == "err" else "ok", "toks": toks, "line": end.get("l", 0)}})
    b = lambda s: list(s.encode())
    x = dict(GRAMMAR_LEXER, kwnames=GRAMMAR_LEXER["keywords"], keywords=[b(k) for k in GRAMMAR_LEXER["keywords"]], eolns=[b(k) for k in GRAMMAR_LEXER["eolns"]],
             brackets=[{"open": b(k), "close": b(y)} for k, y in GRAMMAR_LEXER["brackets"]], patterns=[{"name": n, "r": r, "sel": s} for n, r, s in PATTERNS])
    r, recs = lexcheck.check_records([{"id": k, "lexer": x, "runs": runs[k::8]} for k in range(8)])
    bad = [runs[y["case"]::8][y["run"] - 1]["src"] for k, y in recs if k == "MISMATCH"]
    if bad:
        raise RuntimeError("texts with other tokens than specified: %s" % [bytes(y) for y in bad[:2]])
    ctx.tlc(r)
    ctx.count("texts tokenized by the specification", len(cases))


# ---- observation

LINE = re.compile(r"at line (\d+)")


def observe(so, cases):
    """Runs the generator on the cases; sets c['obs'], or c['fail'] for what is wrong whatever the verdict is."""
    d = tempfile.mkdtemp(prefix="gram.")
    try:
        with open(os.path.join(d, "tpl"), "w") as f:
            f.write(TPL)
        jobs = []
        for k, c in enumerate(cases):
            c.pop("fail", None)
            c.pop("skip", None)
            src, out = os.path.join(d, "g%d" % k), os.path.join(d, "o%d" % k)
            with open(src, "w", encoding="utf8", newline="") as f:
                f.write(c["text"])
            args = {"g": ["-t", "tpl", "-g"], "l": ["-l"], "s": ["-s"], "n": []}[c["mode"]]
            if args:
                args += ["-o", "o%d" % k]
            if k % 3 == 0:
                # the output of an earlier run
                with open(out, "w") as f:
                    f.write("old")
            r = proc.run([os.path.join(so, "mewa"), *args, "g%d" % k], cwd=d, timeout=60)
            err = r.err.decode("utf8", "replace") if isinstance(r.err, bytes) else r.err
            written = os.path.exists(out) and open(out, "rb").read() != b"old"
            o = {"verdict": "ok", "line": 0, "mode": c["mode"], "desc": {}}
            c["obs"], c["err"] = o, err
            if r.timed_out or r.died:
                c["fail"] = "the generator does not end" if r.timed_out else "the generator died: %s" % r.died
            elif r.rc == 0:
                if not written and args:
                    c["fail"] = "nothing was written though the grammar was accepted"
            elif written:
                c["fail"] = "a file was written though the grammar was rejected"
            elif not err.strip():
                c["fail"] = "the grammar was rejected without message"
            elif c["mode"] in "gn" and "#564" in err:
                o["mode"] = "conflict"  # the grammar as such is well-formed
            else:
                m = LINE.search(err)
                o.update(verdict="error", line=int(m.group(1)) if m else 0)
            if r.rc == 0 and written:
                if c["mode"] == "s":
                    with open(out, encoding="utf8", errors="replace") as f:
                        o["desc"] = {"funcs": [{"n": n, "decl": bool(p)} for n, p in re.findall(r"^function typesystem\.(\S+?)\( node(, decl)?\)\nend$", f.read(), re.M)]}
                else:
                    jobs.append((c, "o%d" % k))
        if jobs:
            with open(os.path.join(d, "job"), "w") as f:
                f.writelines("%s %s\n" % (c["mode"], n) for c, n in jobs)
            r = proc.run(["lua5.2", DRIVER, "job", "res"], cwd=d, timeout=120)
            res = []
            if os.path.exists(os.path.join(d, "res")):
                with open(os.path.join(d, "res"), encoding="utf8", errors="replace") as f:
                    res = [json.loads(x) for x in f if x.endswith("\n")]
            if len(res) != len(jobs):
                # the one it ended at; the ones behind it are not judged unless they are alone
                jobs[len(res)][0]["fail"] = "what was written is not usable: reading it %s" % ("does not end" if r.timed_out else "ends with status %d: %r" % (r.rc, r.err[-300:]))
                for c, _ in jobs[len(res) + 1:]:
                    c["skip"] = True
            for (c, _), x in zip(jobs, res):
                if x["ok"]:
                    c["obs"]["desc"] = x["desc"]
                else:
                    c["fail"] = "what was written is not usable: " + x["err"]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def spec_token(t):
    return {"k": t["k"], "v": t["v"], "c": t["v"].upper(), "b": list(t["v"].encode("utf8"))[:40] if t["k"] in ("id", "num", "prio", "str") else [], "ok": t.get("ok", True), "q": t["q"],
            "dq": '"' in t["v"], "l": t["l"], "cm": t["cm"]}


CFG = 'SPECIFICATION Spec\nCONSTANTS Mode = "check"\n MaxTokens = 0\nCHECK_DEADLOCK FALSE\n'


def check_spec(cases, workers=8):
    d = tempfile.mkdtemp(prefix="grams.")
    try:
        p = os.path.join(d, "cases.json")
        with open(p, "w") as f:
            json.dump([{"id": k, "toks": [spec_token(t) for t in c["toks"]], "obs": c["obs"]} for k, c in enumerate(cases)], f)
        r = tlc.run("Grammar", env={"CASES": p}, workers=workers, timeout=600, mem="8g", cfg_text=CFG)
        recs = []
        for line in r.out.splitlines():
            m = re.match(r'"(MISMATCH|DONE) (.*)"$', line)
            if m:
                recs.append((m.group(1), json.loads(json.loads('"' + m.group(2) + '"'))))
        if not r.ok:
            raise RuntimeError("TLC failed on Grammar:\n" + r.tail())
        if {x["case"] for k, x in recs if k == "DONE"} != set(range(len(cases))):
            raise RuntimeError("Grammar did not finish all cases:\n" + r.tail())
        return r, recs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def conforms(so, case):
    observe(so, [case])
    if case.get("fail"):
        return case["fail"]
    _, recs = check_spec([case], workers=1)
    for k, x in recs:
        if k == "MISMATCH":
            return "%s (specified: %s%s)" % (x["what"], x["verdict"], ", " + json.dumps(x["diff"], ensure_ascii=False)[:600] if x["diff"] else "")
    return None


def check_cases(ctx, so, cases, what, batch=4000):
    for b in range(0, len(cases), batch):
        part = cases[b:b + batch]
        chunks = [part[k::16] for k in range(16) if part[k::16]]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda x: observe(so, x), chunks))
        suspects = [c for c in part if c.get("fail")]
        good = [c for c in part if not c.get("fail") and not c.get("skip")]
        if good:
            r, recs = check_spec(good)
            ctx.tlc(r)
            for k, x in recs:
                if k == "MISMATCH":
                    suspects.append(good[x["case"]])
                else:
                    ctx.count("verdict " + x["verdict"])
                    for f in x["faults"]:
                        ctx.count("fault " + f)
        ctx.traces += len(good)
        ctx.events += sum(len(c["toks"]) for c in good)
        for c in good[:1]:
            ctx.sample({"kind": what, "text": c["text"][:400], "verdict": c["obs"]["verdict"]})
        for c in suspects:
            again = conforms(so, c)
            if again is None:
                ctx.count("unconfirmed")
                continue
            ctx.violation("%s: mewa -%s: %s" % (what, c["mode"], again.replace("\n", " ")),
                          "# mewa -%s: %s\n# %s\n%s\n" % (c["mode"], again.replace("\n", " "), c["err"].strip().replace("\n", " "), c["text"]))
            if ctx.full():
                return


def model_texts(ctx, tokens):
    """All texts of the model, up to a number of tokens."""
    cfg = 'SPECIFICATION Spec\nCONSTANTS Mode = "model"\n MaxTokens = %d\nINVARIANTS OneMeaning AllUsed Described Dump\nPROPERTIES Grows\nCHECK_DEADLOCK FALSE\n' % tokens
    r = tlc.run("Grammar", workers=8, timeout=800, mem="8g", cfg_text=cfg)
    if not r.ok:
        raise RuntimeError("TLC failed on Grammar:\n" + r.tail())
    ctx.tlc(r)
    out = []
    for line in r.out.splitlines():
        m = re.match(r'"TEXT (.*)"$', line)
        if m:
            out.append(json.loads(json.loads('"' + m.group(1) + '"'))["toks"])
    ctx.note("all %d texts of up to %d tokens of the model" % (len(out), tokens))
    return out


def model_case(rng, toks, mode="s"):
    ts = [token("'%s'" % v if k == "str" else {"eps": "ε"}.get(v, v)) for k, v in toks]
    return {"mode": mode, "toks": ts, "text": render(rng, ts)}


# ---- known findings

def attribute_on_line(so):
    """LD1: is an attribute before the first of two declarations on a line attached to both?"""
    d = tempfile.mkdtemp(prefix="gram.")
    try:
        with open(os.path.join(d, "g"), "w") as f:
            f.write('# @descr letter\nA: "a"; S = A;\n')
        r = proc.run([os.path.join(so, "mewa"), "-l", "g"], cwd=d, timeout=60)
        out = r.out.decode("utf8", "replace") if isinstance(r.out, bytes) else r.out
        return out.count("descr=")
    finally:
        shutil.rmtree(d, ignore_errors=True)
