"""Conformance of compiler:run with spec/Run.tla."""
import concurrent.futures, json, os, re, shutil, tempfile

import lrcheck, proc, tlc
from ctx import HERE

DRIVER = os.path.join(HERE, "driver", "run.lua")
GRAMMAR = """% LANGUAGE "runs";
% TYPESYSTEM "verifts";
% COMMENT "//";
NUM: '[0-9]+';
S = L ;
L = E L ;
L = ;
E = NUM (op) ;
E = "x" NUM (op) ;
"""
MARK = b"@@"
START_FAILS = ("source", "sourcedir", "target", "targetdir", "debugfile", "debugdir", "debugfull", "syntax")
END_FAILS = ("output", "outputdir", "outputfull")


def codes(s):
    return list(s if isinstance(s, bytes) else s.encode("utf8"))


def lua(b):
    b = b.encode() if isinstance(b, str) else b
    return '"%s"' % "".join("\\%03d" % x for x in b)


def arg(a):
    """An argument of print: a list of codes, or one with the value written in Lua (its text being the codes)."""
    return "nil" if a == [-1] else lua(a)


def lua_number(a):
    s = b"" if a == [-1] else bytes(a)
    return s.decode() if re.match(rb"-?[1-9][0-9]{0,8}$|0$", s) else None


class Layout:
    """Places the operations of a history in source files: text of the case in Lua, files to write, names of the output files."""

    def __init__(self, case):
        ops = case["ops"]
        lines, files, top, outs, members = [], {}, [], set(), {}
        st = []  # positions of the starts of the runs under way

        def failed():
            while len(st) > 1 and not ops[st[-1]]["prot"]:
                st.pop()
            st.pop()

        for k, op in enumerate(ops):
            if op["op"] != "end":
                (members[st[-1]] if st else top).append(k + 1)
            if op["op"] == "start":
                body = op["bad"] not in START_FAILS
                lines.append(self.start(op, body, files, outs))
                members[k] = []
                st.append(k)
                if not body:
                    failed()
                continue
            kind = op["op"]
            if kind == "print" and st and (bytes(op["sec"]) != b"Code" or op.get("section")):
                kind = "section"
            args = [(op.get("numbers") and lua_number(x)) or arg(x) for x in op.get("args", [])]
            if kind == "section":
                args = ["nil" if op["sec"] == [] and op.get("implicit") else lua(op["sec"])] + args
            lines.append('{op="%s",n=%d,args={%s},err=%s,level=%d}' % (kind, len(args), ",".join(args), op.get("err", '"failed on purpose"'), op.get("level", 0)))
            if kind == "fail" or kind == "debug" and case.get("full") == "stderr" and not ops[st[-1]]["dbg"] or kind == "end" and ops[st[-1]]["bad"] in END_FAILS:
                failed()
            elif kind == "end":
                st.pop()
        self.whole = not st
        for k, m in members.items():
            if ops[k]["bad"] not in START_FAILS:
                files[bytes(ops[k]["src"]).decode()] = ops[k].get("sep", "\n").join(map(str, m)).encode()
        self.files, self.outs = files, sorted(outs)
        comps = max([op["comp"] for op in ops if op["op"] == "start"] + [1])
        self.text = "return {comps=%d,top={%s},files={%s},ops={\n%s}}\n" % (
            comps, ",".join(map(str, top)), ",".join('"%s"' % x for x in self.outs), ",\n".join(lines))

    @staticmethod
    def start(op, body, files, outs):
        tgt, src = bytes(op["tgt"]).decode(), bytes(op["src"]).decode()
        if op["bad"] not in ("target", "targetdir") and tgt:
            files[tgt] = bytes(op["tpl"])
        if op["bad"] == "syntax":
            files[src] = b"0 x"
        elif op["bad"] in START_FAILS and op["bad"] not in ("source", "sourcedir"):
            files[src] = b""
        out, dbg = op["out"], op["dbg"]
        if out not in ("stdout", "stderr"):
            outs.add(out)
        if op["bad"] == "output":
            out = "nodir/" + out
        elif op["bad"] in END_FAILS and out not in ("stdout", "stderr"):
            out = "/dev/full" if op["bad"] == "outputfull" else "dir"
        elif op["bad"].startswith("debug"):
            dbg = {"debugfile": "nodir/d", "debugdir": "dir", "debugfull": "/dev/full"}[op["bad"]]
        if op["bad"] == "sourcedir":
            src = "dir"
        elif op["bad"] == "targetdir":
            tgt = "dir"
        run = [lua(tgt) if tgt else "nil", "nil", lua(src)]
        implicit = op.get("implicit", 0)
        if out == "stdout" and implicit:
            run += ["nil"] if implicit > 1 or dbg else []
        else:
            run += ['"%s"' % out]
        if dbg:
            run += ['"%s"' % dbg]
        elif len(run) == 4 and implicit > 1:
            run += ["nil"]
        return '{op="start",comp=%d,prot=%s,body=%s,nrun=%d,run={%s}}' % (
            op["comp"], str(op["prot"]).lower(), str(body).lower(), len(run), ",".join(run))


def make_table(so):
    """Directory with the table of the grammar the histories are run with."""
    d = tempfile.mkdtemp(prefix="runs.")
    r = lrcheck.generate(so, d, GRAMMAR)
    if r.rc != 0 or r.died:
        shutil.rmtree(d, ignore_errors=True)
        return None, r.err.decode("utf8", "replace")[-400:]
    return d, None


SCRIPT = r"""late=0
for k in $(seq 0 %d); do
  cd c$k/d
  if [ $late -lt 3 ]; then
    out=../out err=../err
    [ -e ../full.stdout ] && out=/dev/full
    [ -e ../full.stderr ] && err=/dev/full
    timeout $((late ? 5 : 30)) lua5.2 %s %s ../case.lua ../result >$out 2>$err
    rc=$?
    echo $rc >../rc
    [ $rc = 124 ] && late=$((late + 1))
  else
    echo skipped >../rc
  fi
  cd ../..
done
"""


def observe(so, table, cases):
    """Runs histories: sets the observations of the cases. Returns a failure text or None for each."""
    top = tempfile.mkdtemp(prefix="run.")
    try:
        lays = []
        for k, case in enumerate(cases):
            d = os.path.join(top, "c%d" % k, "d")
            os.makedirs(os.path.join(d, "dir"))
            if case.get("full"):
                open(os.path.join(top, "c%d" % k, "full." + case["full"]), "w").close()
            lay = Layout(case)
            lays.append(lay)
            for n, t in lay.files.items():
                p = os.path.join(d, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(t)
            with open(os.path.join(top, "c%d" % k, "case.lua"), "w") as f:
                f.write(lay.text)
        proc.run(["bash", "-c", SCRIPT % (len(cases) - 1, DRIVER, os.path.join(table, "table.lua"))], cwd=top, env={"MEWA_SO_DIR": so}, timeout=60 + 10 * len(cases), mem=2 << 30)
        return [result(os.path.join(top, "c%d" % k), case, lay) for k, (case, lay) in enumerate(zip(cases, lays))]
    finally:
        shutil.rmtree(top, ignore_errors=True)


def content(*path):
    p = os.path.join(*path)
    if not os.path.exists(p):
        return b""
    with open(p, "rb") as f:
        return f.read()


def result(top, case, lay):
    d = os.path.join(top, "d")
    out, err, rc = content(top, "out"), content(top, "err"), content(top, "rc").decode().strip()
    if rc == "skipped":
        return "skipped"
    if rc != "0":
        return "compiler:run %s" % ("does not end" if rc in ("", "124") else "ended the process with status %s %r" % (rc, err[-300:]))
    o = json.loads(content(top, "result"))
    case["obs"] = o["obs"]
    debugs = []
    for n in sorted({op["dbg"] for op in case["ops"] if op["op"] == "start" and op["dbg"]}):
        if os.path.exists(os.path.join(d, n)):
            lines = content(d, n).split(b"\n")
            debugs.append({"n": n, "t": codes(b"".join(x[2:] + b"\n" for x in lines if x.startswith(MARK)))})
    case["final"] = {"runs": o["runs"], "restored": o["restored"], "out": codes(out), "err": codes(err.replace(MARK, b"")), "debugs": debugs}
    known = {os.path.normpath(n) for n in lay.files} | set(lay.outs) | {x["n"] for x in debugs}
    other = [os.path.relpath(os.path.join(p, n), d) for p, _, ns in os.walk(d) for n in ns]
    other = [n for n in other if n not in known]
    if other:
        return "files written that are no output: %s" % other
    for n, t in lay.files.items():
        if content(d, n) != t and n not in lay.outs:
            return "%s changed by a run" % n
    return None


CFG = 'SPECIFICATION Spec\nCONSTANTS Mode = "check"\n MaxSteps = 0\n MaxRuns = 0\nCHECK_DEADLOCK FALSE\n'


def check_spec(cases):
    d = tempfile.mkdtemp(prefix="runspec.")
    try:
        p = os.path.join(d, "cases.json")
        with open(p, "w") as f:
            for c in cases:
                ops = [{k: v for k, v in op.items() if k in ("op", "comp", "tpl", "tgt", "src", "out", "dbg", "bad", "prot", "sec", "args")} for op in c["ops"]]
                f.write(json.dumps({"ops": ops, "full": c.get("full", ""), "obs": c["obs"], "final": c["final"]}) + "\n")
        r = tlc.run("Run", env={"CASES": p}, timeout=600, mem="3g", cfg_text=CFG)
        recs = []
        for line in r.out.splitlines():
            m = re.match(r'"(MISMATCH|DONE) (.*)"$', line)
            if m:
                recs.append((m.group(1), json.loads(json.loads('"' + m.group(2) + '"'))))
        if not r.ok:
            raise RuntimeError("TLC failed on Run:\n" + r.tail())
        if {x["case"] for k, x in recs if k == "DONE"} != set(range(len(cases))):
            raise RuntimeError("Run did not finish all cases:\n" + r.tail())
        return r, recs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def shown(x):
    if isinstance(x, list) and x and all(isinstance(y, int) and 0 <= y < 256 for y in x):
        return repr(bytes(x))
    if isinstance(x, list):
        return "[" + ", ".join(map(shown, x)) + "]"
    if isinstance(x, dict):
        return "{" + ", ".join("%s: %s" % (k, shown(v)) for k, v in x.items()) + "}"
    return str(x)


def conforms(so, table, case):
    fail = observe(so, table, [case])[0]
    if fail:
        return fail
    _, recs = check_spec([case])
    for k, x in recs:
        if k == "MISMATCH":
            return "%s at step %d: %s expected %s" % (x["what"], x["step"] + 1, shown(x["got"])[:300], shown(x["want"])[:300])
    return None


def describe(case):
    lay = Layout(case)
    return "-- case for driver/run.lua%s\n" % (", %s is /dev/full" % case["full"] if case.get("full") else "") + lay.text + "".join("--[[ file %s:\n%s\n]]\n" % (n, t.decode("latin1")) for n, t in lay.files.items())


def check_cases(ctx, so, table, cases, what):
    chunks = [cases[k:k + 40] for k in range(0, len(cases), 40)]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fails = sum(ex.map(lambda c: observe(so, table, c), chunks), [])
    suspects = [c for c, f in zip(cases, fails) if f and f != "skipped"]
    good = [c for c, f in zip(cases, fails) if not f]
    parts = [good[k::8] for k in range(8) if good[k::8]]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for part, (r, recs) in zip(parts, ex.map(check_spec, parts)):
            ctx.tlc(r)
            suspects += [part[k] for k in sorted({x["case"] for t, x in recs if t == "MISMATCH"})]
    ctx.traces += len(good)
    ctx.events += sum(len(c["ops"]) for c in good)
    ctx.count("histories of runs", len(good))
    for c in good[:1]:
        ctx.sample({"kind": what, "case": describe(c)[:800]})
    for c in suspects:
        again = conforms(so, table, c)
        if again is None:
            ctx.count("unconfirmed")
            continue
        ctx.violation("%s: %s" % (what, again), "-- %s\n%s" % (again.replace("\n", " "), describe(c)), ".lua")
        if ctx.full():
            return


def model_histories(ctx, steps, runs):
    cfg = ('SPECIFICATION Spec\nCONSTANTS Mode = "model"\n MaxSteps = %d\n MaxRuns = %d\nINVARIANTS Isolated Counted Dump\n'
           'PROPERTIES OnlyEnds\nCHECK_DEADLOCK FALSE\n' % (steps, runs))
    r = tlc.run("Run", env={"DUMP": "1"}, workers=8, timeout=850, mem="8g", cfg_text=cfg)
    if not r.ok:
        raise RuntimeError("TLC failed on Run:\n" + r.tail())
    ctx.tlc(r)
    out = []
    for line in r.out.splitlines():
        m = re.match(r'"HISTORY (.*)"$', line)
        if m:
            out.append(json.loads(json.loads('"' + m.group(1) + '"')))
    ctx.note("all histories of %d steps and %d runs of the model: %d, laws checked on %d states" % (steps, runs, len(out), r.distinct))
    return out


def model_case(rng, hist):
    """A history of the model with source and target files of its own names."""
    ops = []
    for k, op in enumerate(hist):
        op = dict(op)
        if op["op"] == "start":
            op["src"], op["tgt"] = codes("s%d" % k), codes("t%d/a.b.c" % k)
            op["implicit"] = rng.choice([0, 1, 2])
        elif op["op"] == "print":
            op["section"] = rng.random() < 0.5
        ops.append(op)
    return {"ops": ops}


SECTIONS = [b"Code", b"Source", b"Triple", b"", b"Types", b"_x1", b"x", b"ab", b"a b", b"1a", b"a-b", b"a{b", b"{", b"\xc3\xa4\xc3\xb6", b"ab ", b"A9", b"Constants", b"code", b"Cod", b"Codes"]
TEXTS = [b"", b"a", b"b\n", b"{Code}", b"{", b"}", b"{}", b"{Source}", b"define i32", b"x{Types}y", b"%s", b"\\", b"\xff\x01", b"\r\n", b" ", b"'\"", b"%%n%d", b"@", b"x" * 600, b"a\x00b"]
TARGETS = ["a.tpl", "a", "d/a.tpl", "d/a", "d.x/ab", "d.x/ab.c.d", ".h", "d/.h", "e/.h.i", "long_name-1.tar.gz", "dir/sub/x86_64-linux-gnu.tpl", "d/y.", "./p", "../%s/q"]


def random_text(rng, pool=TEXTS):
    x = rng.random()
    if x < 0.5:
        return rng.choice(pool)
    if x < 0.6:
        return b"%d" % rng.choice([0, 7, -3, 123456])
    return bytes(rng.choice(b"abcXY_09 {}\n;") for _ in range(rng.randint(0, 12)))


def random_template(rng):
    r = b""
    for _ in range(rng.choice([0, 1, 2, 3, 5, 9])):
        x = rng.random()
        if x < 0.65:
            r += b"{" + rng.choice(SECTIONS) + b"}"
        elif x < 0.8:
            r += rng.choice([b"{", b"}", b"{{", b"}}", b"{ ", b"{Code", b"{1", b"{ab", b"{a}"])
        else:
            r += rng.choice([b"\n", b" ", b"; ", b"{ ret }", b"text ", b"{Unknown}", b"{a_1}", b"{\n}", b"{ab{Code}}", b"{{Code}}"])
    return r


def random_case(rng, length):
    """A random history: sequence of operations as they are executed."""
    ops, st, templates = [], [], {}
    serial = 0
    full = rng.choice(["", "", "", "", "", "stdout", "stderr"])
    marks = [b"m%d" % i for i in range(4)]

    def pop():
        while len(st) > 1 and not st[-1]["prot"]:
            st.pop()
        st.pop()

    while len(ops) < length or st:
        ending = len(ops) >= length
        x = rng.random()
        if not ending and x < (0.25 if st else 0.85) and len(st) < 4:
            serial += 1
            bad = rng.choice(START_FAILS + END_FAILS + ("outputfull",)) if rng.random() < 0.25 else ""
            out = rng.choice(["o1", "o2", "o3.ll", "stdout", "stderr"])
            if bad in END_FAILS:
                out = rng.choice(["o1", "o2"])
            elif full and rng.random() < 0.5:
                out = full
            if out == full and not bad:
                bad = "outputfull"
            tgt = rng.choice(TARGETS)
            if rng.random() < 0.3 or bad == "target":
                tgt = "%d/%s" % (serial, tgt) if bad != "target" else "no%d/%s" % (serial, tgt.lstrip("./"))
            if "%s" in tgt or ".." in tgt:
                tgt = "n%d.x/q" % serial
            if bad == "outputfull":
                tgt = "f%d/x" % serial
            if rng.random() < 0.05 and bad not in ("target", "targetdir", "outputfull"):
                tgt = ""
            tpl = templates.setdefault(os.path.normpath(tgt) if tgt else "", (b"x" if bad == "outputfull" else b"") + random_template(rng) if tgt else b"")
            dbg = ""
            if rng.random() < 0.35:
                dbg = rng.choice(["dbg1", "dbg2", "dbg3"])
                if any(f["dbg"] == dbg for f in st):
                    dbg = ""
            op = {"op": "start", "comp": rng.randint(1, 3), "tpl": codes(tpl), "tgt": codes(tgt),
                  "src": codes(rng.choice(["s%d", "d/s%d.src", "./s%d", "a b %d"]) % serial),
                  "out": out, "dbg": "" if bad.startswith("debug") else dbg, "bad": bad,
                  "prot": not st or rng.random() < 0.6, "implicit": rng.choice([0, 1, 2]), "sep": rng.choice(["\n", " ", " // c\n"])}
            ops.append(op)
            st.append(op)
            if bad in START_FAILS:
                pop()
        elif not st:
            ops.append({"op": "print", "sec": codes("Code"), "args": [codes(b"top" + rng.choice(marks))]})
        elif x < 0.75 and not ending:
            args = [codes(random_text(rng)) if rng.random() < 0.9 else [-1] for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
            if rng.random() < 0.12:
                ops.append({"op": "debug", "args": [codes(rng.choice([b"dbg", b"{Code}", b"-", b"12"])) for _ in range(rng.randint(0, 2))]})
                if full == "stderr" and not st[-1]["dbg"]:
                    pop()
            else:
                ops.append({"op": "print", "sec": codes(rng.choice(SECTIONS[:8] if rng.random() < 0.7 else SECTIONS)), "args": args,
                            "section": rng.random() < 0.4, "numbers": rng.random() < 0.5, "implicit": rng.random() < 0.5})
        elif x < 0.8 and not ending:
            ops.append({"op": "fail", "err": rng.choice(['"failed"', "{}", "nil", '"x.lua:3: y"', '("x"):rep(2000)', "12", '"%s%n"']), "level": rng.choice([0, 1, 2])})
            pop()
        elif x < 0.93 or ending:
            bad = st[-1]["bad"]
            ops.append({"op": "end"})
            if bad in END_FAILS:
                pop()
            else:
                st.pop()
    return {"ops": ops, "full": full}
