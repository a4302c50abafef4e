"""Conformance of mewa.compiler with spec/Load.tla: which descriptions of compilers it accepts."""
import json, os, re, shutil, tempfile

import proc, tlc
from ctx import HERE

DRIVER = os.path.join(HERE, "driver", "load.lua")
HEAD = '%% LANGUAGE "test";\n%% TYPESYSTEM "verifts";\n%s'
GRAMMARS = [
    (HEAD % '''% COMMENT "/*" "*/";
% COMMENT "//";
% IGNORE '[#]+';
% BAD '[@]';
ID: '[a-z]+';
NUM: '[0-9]+';
STR: '["]([a-z]*)["]' 1;
S = L (>>block);
L = L I | ε;
I = ID "=" E ";" ({}assign "text");
I = "print" E ";" (print obj);
I = ";" (nothing {a=1});
E/L1 = E "+" E (add);
E = NUM | ID | STR (str);
E = "(" E ")";
''', ["a=1+b+\"c\";;// x\nprint (d) ; /* y */ ##", "", "a=", "print @"]),
    (HEAD % '''% CMDLINE "cmd";
% INDENTL INDENT DEDENT NL 4;
ID: '[a-z]+';
S = L (root);
L = L ID NL (id);
L = L ID ":" INDENT L DEDENT ({}blk);
L = ε;
''', ["a\nb:\n    c\n\td\ne\n", "a:\n", "a b"]),
    (HEAD % '''% COMMENT "#";
A: 'a';
S = X (>>f1 'x y');
X = A X (g1 {x=1,y='2'}) | A;
''', ["a a # x\n a", "a", "b"]),
]
MAJOR = 0


class Expr(str):
    """Lua expression"""


def lua(x):
    if isinstance(x, Expr):
        return str(x)
    if isinstance(x, bool):
        return "true" if x else "false"
    if isinstance(x, str):
        return '"%s"' % "".join("\\%03d" % b if chr(b) in '"\\' or b < 32 or b > 126 else chr(b) for b in x.encode())
    if isinstance(x, (int, float)):
        return repr(x)
    if isinstance(x, dict):
        return "{%s}" % ", ".join("%s = %s" % (k, lua(v)) for k, v in x.items())
    return "{%s}" % ", ".join(lua(v) for v in x)


NIL, PRINT = Expr("nil"), Expr("print")
VERSIONS = ["0.1", "0.10.13", "0.99", "0.100", "0.101", "1.0", "1.0.0", "1", "0", "", ".", "0.", "0.0", "0.0.1", ".5", "x", "0.x", "0x1", "0.1x", "0.1.x", "0.1.", "0.1..2", "-1.0", "0.-1", " 0.1", "0.1 ",
            "100.1", "101.1", "00.01", "000000000001.1", "0.000000000012", "99999999999.1", "0.99999999999999999", "2.3.4", "0.9.999999999", "0,1", "99.99", "0.1-dev"]


def other(rng, fits=()):
    """A value, of any kind or of one that is not of those that fit."""
    vals = [True, False, 1.5, PRINT, Expr("{}"), Expr("{true}"), Expr("{{}}"), Expr("{x=1}"), Expr("{print}")]
    return rng.choice([v for v in vals if v not in fits])


TOP = ["mewa", "language", "typesystem", "cmdline", "nonterminal", "lexer", "action", "gto", "call"]
LEXER = ["comment", "token", "keyword", "bad", "ignore", "indentl"]


def near(rng, keys):
    """A key that is almost one of those."""
    k = rng.choice(keys)
    i = rng.randrange(len(k))
    n = rng.choice([k[:i] + k[i + 1:], k[:i + 1], k[:1] + rng.choice("abcxyz"), k + rng.choice(["s", "x", "_", " ", "1"]), k[:i] + rng.choice("abelmnopr_") + k[i + 1:], k[:i] + k[i].upper() + k[i + 1:], k[:2] + "x", k[:3], k[:-1] + "x"])
    return n if n not in keys else n + "z"


def edit(rng, g):
    """One change: path and value."""
    r = rng.random()
    text = GRAMMARS[g][0]
    if r < 0.13:
        return ["mewa"], rng.choice(VERSIONS + [NIL, True, 1, 0.5, Expr("{}"), PRINT] + ["%d.%d%s" % (rng.choice([0, 0, 0, 1, 2, 100, 101]), rng.choice([0, 1, 9, 99, 100, 101, 256]), rng.choice(["", ".0", ".77", "."]))] * 6)
    if r < 0.20:
        return [rng.choice(["language", "typesystem", "cmdline"])], rng.choice(["x", "", "a b \" '", NIL, other(rng)])
    if r < 0.26:
        return [rng.choice(["nonterminal", "lexer", "action", "gto", "call"])], rng.choice([True, 1, "x", PRINT, 0, "{}"])
    if r < 0.33:
        if rng.random() < 0.5:
            return [near(rng, TOP)], rng.choice([True, "x", Expr("{}"), Expr("{true}"), PRINT, Expr("{{x=1}}"), "0.1"])
        return [rng.choice(["x", "Mewa", "lexer2", "actions", "", "version", "calls", 1, 2, True, 1.5, Expr("print")])], rng.choice([True, 1, "x", Expr("{}"), PRINT, Expr("{{x=1}}")])
    if r < 0.43:
        return [rng.choice(["action", "gto"]), rng.choice([1024, 1026, 99999, 0, -1, "x", True, -2000000])], rng.choice([1, 16384, 0, -1, "x", True, Expr("{}"), PRINT])
    if r < 0.49:
        return ["nonterminal", rng.choice([1, 2, 3, 9, "x", True, 1.5])], rng.choice(["X", "", True, PRINT, Expr("{}"), False])
    if r < 0.70:
        k = rng.choice(["comment"] * 2 + ["token"] * 6 + ["keyword", "bad", "ignore", "indentl", "x", near(rng, LEXER), ""])
        if rng.random() < 0.2:
            return ["lexer", rng.choice([k, k, 1, True])], rng.choice([True, 1, "x", PRINT, Expr("{}")])
        if k == "comment":
            return ["lexer", "comment"], Expr(rng.choice(['{{"/*","*/"},"//"}', '{{"/*","*/"},{"//"}}', '{"#"}', '{{"#"}}', '{{"a","b","c"}}', "{{}}", "{true}", "{1}", '{x="#"}', '{[2]="#"}', '{{true}}', '{{"a",true}}', '{{x="a"}}', '{print}']))
        if k == "token":
            if rng.random() < 0.5:
                return ["lexer", "token", rng.choice([1, 1, 2, 2, 3, 3, 4, 7, "x"])], rng.choice([True, "x", PRINT, Expr("{}"), Expr('{"TT"}'), Expr('{"TT","t"}'), Expr('{"TT","(t)",1}'), Expr('{"TT","(t)","1"}'), Expr('{"TT","(t)",1,1}'), Expr('{"TT","t",-1}'),
                                                                                        Expr('{"TT","t","1x"}'), Expr('{"TT","t",1.5}'), Expr('{"TT","t",true}'), Expr('{"TT",{}}'), Expr('{x="TT",y="t"}'), Expr('{1,2}'), 12])
            return ["lexer", "token", rng.choice([1, 2, 3]), rng.choice([1, 2, 3, 4, "x"])], rng.choice([True, Expr("{}"), PRINT, False])
        if k == "indentl":
            return ["lexer", "indentl"], Expr(rng.choice(["{}", "{2}", "{2,4}", "{2,4,5}", '{"2","4"}', "{2,true}", "{2,1.5}", "{x=2,y=4}", "{1,{}}"]))
        if k in ("keyword", "bad", "ignore"):
            return ["lexer", k, rng.choice([1, 2, 5, 99, "x", True])], rng.choice(["zz", "z", True, PRINT, Expr("{}"), False])
        return ["lexer", k], rng.choice([Expr("{}"), Expr('{"x"}'), Expr("{{1}}"), Expr('{{"zz","zz"}}'), Expr('{x=1}')])
    # calls
    n = len(re.findall(r"\(\W{0,2}[a-z]", text)) - (1 if g == 0 else 0)
    i = rng.choice(list(range(1, n + 1)) * 3 + [n + 1, n + 3, 0, "x"])
    r = rng.random()
    if r < 0.35:
        return ["call", i], rng.choice([NIL, True, False, "x", PRINT, Expr("{}"), Expr("{name='f',proc=print}"), Expr("{name='f x',proc=print,obj=1}"), Expr("{name='f x',proc=print}"), Expr("{name='f'}"), Expr("{proc=print}"), Expr("{obj=1}"),
                                        Expr("{name='f  x y',proc=print}"), Expr("{name='f',obj=false}"), Expr("{name=1,proc=print}"), Expr("{name='f',proc=1}"), Expr("{name='f',proc=print,x=1}"), Expr("{'f',print}"), Expr("{name='',proc=print}"), Expr("{name='f ',proc=print}")])
    if r < 0.55:
        k = near(rng, ["name", "proc", "obj"])
        return ["call", i, k], Expr("print") if k[:1] == "p" else rng.choice(["f", True, PRINT])
    return ["call", i, rng.choice(["name", "proc", "proc", "obj", "obj", "x", "Name", 1])], rng.choice([NIL, NIL, True, "f", "f g", "f {x=1}", PRINT, Expr("{}"), False])


def make_cases(rng, count):
    cases = []
    for k in range(count):
        g = rng.randrange(len(GRAMMARS))
        eds = [edit(rng, g) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
        eds = [(p, v) for p, v in eds if not (v is NIL and len(p) > 1 and p[0] != "call")]
        cases.append({"base": g + 1, "edits": eds or [(["x"], True)]})
    return cases


def case_text(c):
    return "{base=%d, edits={%s}, run=true}" % (c["base"], ", ".join("{path=%s, value=%s}" % (lua(p), lua(v)) for p, v in c["edits"]))


def masked(arg):
    return re.sub(r",? (row|col) \d+", "", arg)


def observe(so, cases):
    """(bases, outcomes), or a text about what went wrong"""
    d = tempfile.mkdtemp(prefix="load.")
    try:
        open(os.path.join(d, "t.tpl"), "w").write('local typesystem = require("%typesystem%")\nreturn %automaton%\n')
        bases = []
        for i, (g, srcs) in enumerate(GRAMMARS):
            open(os.path.join(d, "g%d.g" % i), "w").write(g)
            r = proc.run([os.path.join(so, "mewa"), "-g", "-t", "t.tpl", "-o", "g%d.lua" % i, "g%d.g" % i], cwd=d)
            if r.rc != 0:
                return "mewa -g ends with %s for\n%s\n%s" % (r.rc, g, r.err.decode("utf8", "replace")[:500])
            bases.append("{file='g%d.lua', sources=%s}" % (i, lua(srcs)))
        with open(os.path.join(d, "cases.lua"), "w") as f:
            f.write("return {bases={%s}, cases={\n%s\n}}\n" % (", ".join(bases), ",\n".join(case_text(c) for c in cases)))
        r = proc.run(["lua5.2", DRIVER, "cases.lua", "out"], cwd=d, env={"MEWA_SO_DIR": so, "LC_ALL": "C"}, timeout=300)
        try:
            res = [json.loads(x) for x in open(os.path.join(d, "out"), errors="replace").read().split("\n") if x]
        except (OSError, ValueError):
            return "compilers ended with %s: %s" % (r.rc, r.err.decode("utf8", "replace")[-400:])
        bs, outs = res[:len(GRAMMARS)], res[len(GRAMMARS):]
        if r.rc != 0 or len(outs) != len(cases):
            return "ended with %s at description %d: %s\n%s" % (r.rc, len(outs) + 1, case_text(cases[len(outs)]) if len(outs) < len(cases) else "", r.err.decode("utf8", "replace")[-400:])
        for o in outs:
            m = re.match(r'#(\d+) "[^"]*"(?: at line \d+)?(?: in file "[^"]*")?(?:: (.*))?$', o["err"], re.S)
            o["code"] = 0 if not o["err"] else int(m.group(1)) if m else -1
            o["arg"] = masked(m.group(2) or "") if m else o["err"]
            node(o["table"])
        for b in bs:
            node(b["table"])
        return bs, outs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def node(t):
    """a table as node with all fields"""
    t.update({"t": "table", "s": "", "c": [], "int": False, "num": False, "v": 0, "pre": "", "post": "", "e": t["e"]})


def judge(bs, outs, first=0):
    d = tempfile.mkdtemp(prefix="loads.")
    try:
        p = os.path.join(d, "cases")
        with open(p, "w") as f:
            json.dump({"major": MAJOR, "bases": bs, "cases": [{"id": first + k, "base": o["base"], "table": o["table"], "code": o["code"], "arg": o["arg"], "runs": o["runs"]} for k, o in enumerate(outs)]}, f)
        r = tlc.run("Load", cfg_text='SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Mode = "cases"\n', env={"CASES": p}, timeout=800)
        recs = []
        for line in r.out.splitlines():
            m = re.match(r'"(MISMATCH|DONE) (.*)"$', line)
            if m:
                recs.append((m.group(1), json.loads(json.loads('"' + m.group(2) + '"'))))
        if not r.ok or len([1 for k, _ in recs if k == "DONE"]) != len(outs):
            raise RuntimeError("TLC failed on Load:\n" + r.tail())
        return r, recs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(so, cases):
    """list of (case, fault), and records; a process that dies is taken apart"""
    o = observe(so, cases)
    if isinstance(o, str):
        if len(cases) == 1:
            return None, [(cases[0], o)], []
        m = re.search(r"at description (\d+)", o)
        k = int(m.group(1)) - 1 if m else 0
        a = [(cases[k], o)] if k < len(cases) else []
        if k:
            r, b, recs = check(so, cases[:k])
            return r, a + b, recs
        return None, a, []
    bs, outs = o
    for c, x in zip(cases, outs):
        x["base"] = c["base"]
    r, recs = judge(bs, outs)
    return r, [(cases[x["id"]], "%s; it is %s" % (x["fault"], outs[x["id"]]["err"] or "accepted")) for k, x in recs if k == "MISMATCH"], recs


def model(ctx):
    r = tlc.run("Load", workers=8, timeout=800, cfg_text='SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Mode = "model"\nINVARIANT Order Meanings Laws\n')
    if not r.ok:
        raise RuntimeError("TLC failed on Load:\n" + r.tail())
    ctx.tlc(r)
    ctx.log("model: reading small descriptions in any order")


def run(ctx, so):
    model(ctx)
    total = ctx.n(2500, 40000)
    batch = 500
    for b in range(0, total, batch):
        cases = make_cases(ctx.rng, batch)
        r, faults, recs = check(so, cases)
        if r:
            ctx.tlc(r)
        for k, x in recs:
            if k == "DONE":
                ctx.traces += 1
                ctx.events += 1
                ctx.count("refused" if x["refused"] else "accepted", 1)
                ctx.count("accepted_with_the_same_meaning", int(x["same"]))
        for c, f in faults[:6]:
            _, again, _ = check(so, [c])
            if again and not ctx.full():
                ctx.violation("description %s changed with %s: %s" % (c["base"], case_text(c), again[0][1]), "-- grammar\n%s\n-- change\n%s\n-- %s\n" % (GRAMMARS[c["base"] - 1][0], case_text(c), again[0][1]))
        ctx.log("descriptions: %d, %d suspects" % (b + batch, len(faults)))
        if ctx.full():
            return
    ctx.sample({"change": case_text(cases[0])})
