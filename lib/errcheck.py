"""Conformance of the errors of compiler runs with spec/Errors.tla."""
import concurrent.futures, json, os, re, shutil, tempfile

import proc, runcheck, tlc
from ctx import HERE

DRIVER = os.path.join(HERE, "driver", "err.lua")
# codes of errors that users of compilers meet, with the text they have
KNOWN = {2: "No such file or directory", 13: "Permission denied", 411: "Expected boolean value as argument", 413: "Expected table as argument", 421: "Too few arguments",
         447: "Bad Mewa version", 501: "Bad character in the grammar definition", 591: "Lua runtime error (ERRRUN)", 601: "Syntax error, unexpected token (expected one of {...})"}


def some_text(rng, n=None):
    n = n if n is not None else rng.choice([0, 1, 3, 8, 20, 60] + [200, 505, 511, 512, 513, 1000, 3000] * (rng.random() < 0.2))
    pieces = ["a", "foo", " ", ": ", ":", "\"", "'", "#", "#12", "at line 3", "%s", "%d", "{", "}", "\n", "\t", "\\", "ä", "\xff", "line", ".lua", ".lua:", "(", "$", "Error at line 3: ", "in file \"x\""]
    out = ""
    while len(out) < n:
        out += rng.choice(pieces)
    return out.encode("latin1")[:n]


def mewa_error(rng, known):
    line = rng.choice([0, 1, 7, 12, 100, 65536, 123456789])
    f = rng.choice(["", "", "f", "a b.c", "dir/x:y.lua", "x" * 60])
    place = ("at line %d%s" % (line, " in file \"%s\"" % f if f else "")) if line or f else ""
    if rng.random() < 0.4 and line:
        head = "Error " + place
    else:
        code = rng.choice(sorted(known))
        head = "#%d \"%s\"%s" % (code, known[code], " " + place if place else "")
    arg = some_text(rng)
    return head.encode() + (b": " + arg if arg else b"")


def mutated(rng, t):
    """A text similar to an error of mewa."""
    t = bytearray(t)
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.randrange(min(len(t), 90))
        if chr(t[k]) in "\"'0123456789":
            continue
        r = rng.random()
        if r < 0.4:
            del t[k]
        elif r < 0.7:
            t[k] = rng.choice(b"x:# ")
        else:
            t.insert(k, rng.choice(b"x:#("))
    return bytes(t)


def lua(b):
    return '"%s"' % "".join("\\%03d" % x for x in b)


class Case:
    def __init__(self, rng, known):
        self.words = rng.choice([1, 1, 2, 3, 5])
        self.fails = rng.randint(1, self.words)
        self.placed = False
        r = rng.random()
        if r < 0.65:
            q = rng.random()
            t = some_text(rng) if q < 0.35 else mewa_error(rng, known) if q < 0.7 else mutated(rng, mewa_error(rng, known))
            if re.search(rb'in file "[^"]*: [^"]*"', t):
                t = some_text(rng)  # not decided
            self.op = {"kind": '"error"', "value": lua(t), "level": str(rng.choice([0, 0, 0, 1]))}
        elif r < 0.73:
            self.op = {"kind": '"error"', "value": rng.choice(["{}", "{1,2}", "true", "false", "nil", "print", "12", "-3", "2^70"]), "level": "0"}
        elif r < 0.83:
            field = rng.choice(["f", "f" * 10, "f" * rng.choice([100, 430, 440, 450, 460, 470, 500, 600, 2000])])
            lines = "\n" * rng.choice([0, 1, 5])
            code = rng.choice(["local x = {}%sreturn function() x.%s.y = 1 end", "local x = {}%sreturn function() return x.%s() .. 'a' end",
                               "local x = {}%sreturn function() return 1 + x.%s end", "%sreturn function() return #%s end"]) % (lines or " ", field)
            chunk = rng.choice(["@file.lua", "@dir/other.lua", "=chunk", "text of chunk", "@noext", "=" + "n" * 70])
            self.op = {"kind": '"runtime"', "value": lua(code.encode()), "chunk": lua(chunk.encode())}
            self.placed = True
        elif r < 0.9:
            self.op = {"kind": '"nested"', "value": lua(("1\n" * rng.choice([0, 1, 9]) + rng.choice(["x y", "x x", "?", "x", "x 12 x", "y" * 600])).encode()), "comp": str(rng.randint(1, 2))}
        elif r < 0.93:
            self.op = {"kind": '"missing"', "value": lua(rng.choice(["nofile", "no/dir/at all", "n" * 150]).encode()), "comp": str(rng.randint(1, 2))}
        else:
            self.op = {"kind": '"typedb"', "call": str(rng.randint(1, 8)), "value": lua(some_text(rng))}
        self.native = self.op["kind"] in ('"nested"', '"missing"', '"typedb"')
        self.obs = None

    def text(self):
        return "{words=%d,fails=%d,%s}" % (self.words, self.fails, ",".join("%s=%s" % x for x in sorted(self.op.items())))

    def spec(self, k):
        # the text of an error of mewa itself, which may be any
        m = re.match(rb'#(\d+) "([^"]*)"', bytes(self.obs["m"])) if self.native else None
        extra = [{"code": int(m.group(1)), "text": list(m.group(2))}] if m else []
        return dict(self.obs, id=k, fails=self.fails, placed=self.placed, extra=extra)


def observe(so, table, cases):
    """Failure text or None; sets obs of the cases."""
    d = tempfile.mkdtemp(prefix="err.")
    try:
        with open(os.path.join(d, "cases.lua"), "w") as f:
            f.write("return {\n" + ",\n".join(c.text() for c in cases) + "\n}\n")
        r = proc.run(["lua5.2", DRIVER, table, "cases.lua", "result"], cwd=d, env={"MEWA_SO_DIR": so, "LC_ALL": "C"}, timeout=60)
        lines = []
        if os.path.exists(os.path.join(d, "result")):
            with open(os.path.join(d, "result")) as f:
                lines = f.read().split("\n")
        n = 0
        for l in lines:
            w = l.split(" ")
            if w[0] == "case" and len(w) == 7:
                n += 1
                m, t = bytes.fromhex(w[5][1:]), bytes.fromhex(w[6][1:])
                cases[n - 1].obs = {"ok": w[2] == "true", "calls": int(w[3]), "kind": w[4], "m": list(m), "t": list(t)}
        if "end" not in lines:
            return "the program ended with %s: %s" % ("the time limit" if r.timed_out else "status %s" % r.rc, r.err.decode("utf8", "replace")[-500:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def spec_faults(cases, d, known):
    """faults by index of the case, result of TLC"""
    with open(os.path.join(d, "known"), "w") as f:
        for c in sorted(known):
            f.write(json.dumps({"code": c, "text": list(known[c].encode())}) + "\n")
    with open(os.path.join(d, "cases"), "w") as f:
        for k, c in enumerate(cases):
            f.write(json.dumps(c.spec(k)) + "\n")
    r = tlc.run("Errors", cfg_text="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT MaxPieces = 0\n", env={"MODE": "cases", "CASES": os.path.join(d, "cases"), "KNOWN": os.path.join(d, "known")}, timeout=800)
    bad, done = {}, {}
    for l in r.out.split("\n"):
        l = l.strip().strip('"').replace('\\"', '"')
        if l.startswith("MISMATCH "):
            x = json.loads(l[9:])
            bad[x["id"]] = x["fault"]
        elif l.startswith("DONE "):
            x = json.loads(l[5:])
            done[x["id"]] = x["mewa"]
    if not r.ok or len(done) != len(cases):
        raise RuntimeError("TLC failed on Errors:\n" + r.tail())
    return bad, done, r


def describe(c):
    o = c.obs or {}
    return "compiler on %d words, the function called for word %d fails with\n%s\nerror of the function: %r\nerror of the run: %r\ncalls: %s\n" % (
        c.words, c.fails, c.text(), bytes(o.get("m", [])), bytes(o.get("t", [])), o.get("calls"))


def check_model(ctx):
    r = tlc.run("Errors", workers=8, timeout=600, env={"MODE": "model"}, cfg_text="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT MaxPieces <- %s\nINVARIANT Laws\n" % ctx.n("Quick", "Thorough"))
    if not r.ok:
        raise RuntimeError("TLC failed on Errors:\n" + r.tail())
    ctx.tlc(r)


def check_cases(ctx, so, count):
    d, fail = runcheck.make_table(so)
    if fail:
        ctx.violation("the grammar of the runs is not accepted: " + fail, runcheck.GRAMMAR, ".g")
        return
    table = os.path.join(d, "table.lua")
    try:
        judge(ctx, so, table, count)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(ctx, so, table, count):
    cases = [Case(ctx.rng, KNOWN) for _ in range(count)]
    groups = [cases[k:k + 50] for k in range(0, len(cases), 50)]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fails = list(ex.map(lambda g: observe(so, table, g), groups))
    suspects = [c for g, f in zip(groups, fails) if f for c in g]
    good = [c for g, f in zip(groups, fails) if not f for c in g]
    d = tempfile.mkdtemp(prefix="errs.")
    try:
        parts = [good[k::4] for k in range(4)]
        dirs = [os.path.join(d, str(k)) for k in range(4)]
        for x in dirs:
            os.mkdir(x)
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            res = list(ex.map(lambda k: spec_faults(parts[k], dirs[k], KNOWN) if parts[k] else None, range(4)))
        for p, x in zip(parts, res):
            if x:
                ctx.tlc(x[2])
                suspects += [p[i] for i in x[0]]
                for i in x[1].values():
                    ctx.count("errors_of_mewa" if i else "other_errors")
        ctx.traces += len(cases)
        ctx.events += sum(c.obs["calls"] for c in good)
        if good:
            ctx.sample({"kind": "error of a function", "case": describe(good[-1])[:400]})
        for c in suspects:
            if ctx.full():
                break
            c.obs = None
            f = observe(so, table, [c])
            if f:
                ctx.violation("error of a function: " + f, describe(c))
                continue
            bad, _, _ = spec_faults([c], dirs[0], KNOWN)
            if bad:
                ctx.violation("error of a function: " + bad[0], describe(c))
    finally:
        shutil.rmtree(d, ignore_errors=True)
