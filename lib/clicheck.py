"""Conformance of the command line of mewa with spec/Cli.tla."""
import concurrent.futures, json, os, re, shlex, shutil, tempfile

import lrgen, proc, tlc

LONG = {"g": "--generate-compiler", "s": "--generate-template", "l": "--generate-language", "V": "--verbose", "v": "--version", "h": "--help",
        "o": "--output=", "d": "--dbgout=", "t": "--template=", "b": "--luabin="}
BAD = ["-x", "--bogus", "-", "--generate", "--outpu", "-G", "--Version", "-z=1"]
KEYS = ["typesystem", "language", "cmdline", "automaton", "luabin"]
TABLE, STUBS, DESCRIPTION, DEBUG, CDEBUG = -1, -2, -3, -4, -5
CFG = "SPECIFICATION Spec\nCONSTANT MaxArgs = %d\nCHECK_DEADLOCK FALSE\n"
HEAD = '% LANGUAGE "l"; % TYPESYSTEM "t";\n'
CONFLICT = HEAD + 'NUM: "[0-9]+"; S = E; E = E "+" E (f) | NUM (g);\n'
BROKEN = [HEAD + x for x in ('S = A "x";\n', 'S = "x" "y"\n', 'S = NUM (f;\n', '@ S = "x";\n', 'NUM: [0-9]+;\n')]


def header(rng, values):
    lines = ['%% %s "%s";' % (k, v) for k, v in values if v]
    rng.shuffle(lines)
    return lines


class Input:
    """A grammar: its text, its settings and the texts mewa makes of it."""

    def __init__(self, rng, so):
        self.so = so
        name = lambda: "".join(rng.choice("abcXYZ_019. -") for _ in range(rng.randint(1, 9))).strip() or "x"
        self.language, self.typesystem = name(), name()
        self.cmdline = name() if rng.random() < 0.6 else ""
        h = header(rng, [("LANGUAGE", self.language), ("TYPESYSTEM", self.typesystem), ("CMDLINE", self.cmdline)])
        for _ in range(200):
            self.text = lrgen.grammar_text(rng, lrgen.structured_grammar(rng, rng.randint(1, 3)), header=h)
            self.fail = self.references()
            if not (self.fail or "").startswith("rejected"):
                break

    def references(self):
        d = tempfile.mkdtemp(prefix="cli.")
        try:
            put(d, "g", self.text.encode())
            put(d, "t", b"%automaton%")
            mewa = os.path.join(self.so, "mewa")
            r = proc.run([mewa, "-g", "-d", "D", "-t", "t", "-o", "A", "g"], cwd=d, timeout=60)
            if r.died:
                return "mewa ended with %s" % ("the time limit" if r.timed_out else "status %d" % r.rc)
            if r.rc != 0:
                return "rejected: " + r.err.decode("utf8", "replace")
            put(d, "c", CONFLICT.encode())
            for opt, g, out in (("-s", "g", "S"), ("-l", "g", "L"), ("-s", "c", "SC"), ("-l", "c", "LC")):
                r = proc.run([mewa, opt, "-o", out, g], cwd=d, timeout=60)
                if r.rc != 0:
                    return "mewa %s rejects a grammar: %s" % (opt, r.err.decode("utf8", "replace"))
            r = proc.run([mewa, "-g", "-d", "CD", "-o", "CA", "c"], cwd=d, timeout=60)
            if r.rc == 0:
                return "mewa accepts a grammar with a conflict"
            self.refs = []
            for f, c in (("A", TABLE), ("S", STUBS), ("L", DESCRIPTION), ("SC", STUBS), ("LC", DESCRIPTION), ("D", DEBUG), ("CD", CDEBUG)):
                t = get(d, f)
                if t is None or not t.strip():
                    return "mewa writes nothing to the output file (%s)" % f
                self.refs.append((t[:-1] if c == TABLE and t.endswith(b"\n") else t, c))
            self.refs.sort(key=lambda x: -len(x[0]))
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def fold(self, text):
        """codes of a text, the texts known replaced by their code"""
        out, rest = [], [text]
        parts = [text]
        for ref, c in self.refs:
            new = []
            for p in parts:
                if isinstance(p, int):
                    new.append(p)
                    continue
                for i, q in enumerate(p.split(ref)):
                    if i:
                        new.append(c)
                    new.append(q)
            parts = new
        for p in parts:
            out += [p] if isinstance(p, int) else list(p)
        if len(out) > 6000:
            out = out[:6000] + [-9]
        return out


def put(d, n, t):
    with open(os.path.join(d, n), "wb") as f:
        f.write(t)


def get(d, n):
    p = os.path.join(d, n)
    if not os.path.isfile(p):
        return None
    with open(p, "rb") as f:
        return f.read()


def template(rng, plain=False):
    """Text with placeholders, none of which overlap."""
    out = []
    pieces = ["%", "%%", "100% ", "typesystem", "%typesystem", "%LANGUAGE%", "% cmdline%", "%automat%", "x = 1\n", "\n", "-- ", "#!", " ", "%unknown%", "{automaton}", "\\", "ä", "\t", "$1", "%s %d"]
    for _ in range(rng.choice([0, 1, 3, 8, 20])):
        if rng.random() < 0.5:
            out.append("%" + rng.choice(KEYS) + "%")
        else:
            out.append(rng.choice(pieces))
    if rng.random() < 0.05:
        out.insert(rng.randint(0, len(out)), "-- filler\n" * rng.choice([100, 409, 410, 500]))
    text = "".join(out) or "x"
    # a percent sign that may belong to two placeholders is not decided
    if re.search("%%(?:%s)(?=%%(?:%s)%%)" % ("|".join(KEYS), "|".join(KEYS)), text):
        return template(rng)
    return text


class World:
    """Files a run finds, and its arguments."""

    def __init__(self, rng, inp, args=None):
        self.inp = inp
        self.rng = rng
        words = {"good": inp.text.encode(), "conflict": CONFLICT.encode(), "bad": rng.choice(BROKEN).encode(), "t1": template(rng).encode(), "t2": template(rng).encode(),
                 "old": b"content of before\n" * 2000}
        kinds = {"good": "good", "conflict": "conflict"}
        self.files = [{"name": n, "kind": kinds.get(n, "broken"), "bytes": t} for n, t in words.items()]
        self.full = rng.random() < 0.1
        self.args = args or self.random_args(rng)
        self.full = self.full and all(a["k"] != "v" for a in self.args)
        self.badnames = ["nodir/x", "/dev/full", "."] + ([""] if self.full else [])
        self.forms = [self.form(rng, a) for a in self.args]

    def random_args(self, rng):
        units = []

        def valued(k, names):
            v = rng.choice(names)
            units.append([{"k": k, "v": v}] if rng.random() < 0.5 else [{"k": k, "v": ""}, {"k": "word", "v": v}])
        cmd = rng.choice("gggsl-")
        if cmd != "-":
            units.append([{"k": cmd, "v": ""}])
        if rng.random() < 0.06:
            units.append([{"k": rng.choice("gsl"), "v": ""}])
        if rng.random() < 0.7:
            valued("o", ["o1", "o1", "o2", "old", "old"] + (["nodir/x", "/dev/full", "."] if rng.random() < 0.3 else []))
        if rng.random() < 0.1:
            valued("o", ["o1", "o2", "old"])
        if rng.random() < (0.5 if cmd == "g" else 0.1):
            valued("t", ["t1", "t2", "t2"] + (["missing"] if rng.random() < 0.2 else []))
        if rng.random() < 0.08:
            valued("t", ["t1", "t2"])
        if rng.random() < (0.4 if cmd == "g" else 0.1):
            valued("b", ["/x/lua", "lua5.2", "/usr/bin/env lua"])
        if rng.random() < (0.2 if cmd in "g-" else 0.05):
            valued("d", ["d1", "d2", "old", "o1"] + (["nodir/x", "/dev/full"] if rng.random() < 0.3 else []))
        if rng.random() < 0.12:
            units.append([{"k": "V", "v": ""}])
        if rng.random() < 0.05:
            units.append([{"k": rng.choice(["v", "h", "bad"]), "v": ""}])
        rng.shuffle(units)
        rest = [{"k": "word", "v": rng.choice(["good"] * 14 + ["conflict", "conflict", "bad", "missing"])}]
        if rng.random() < 0.1:
            rest.insert(0, {"k": "dd", "v": ""})
        if rng.random() < 0.05:
            rest.append(rng.choice([{"k": "word", "v": "good"}, {"k": "g", "v": ""}, {"k": "o", "v": "o1"}]))
        if rng.random() < 0.04:
            rest = []
        args = sum(units, []) + rest
        if rng.random() < 0.05 and args:
            del args[rng.randrange(len(args))]
        return args

    def form(self, rng, a):
        k, v = a["k"], a["v"]
        if k == "word":
            return v
        if k == "dd":
            return "--"
        if k == "bad":
            return rng.choice(BAD)
        return rng.choice(["-" + k, LONG[k]]) + v

    def spec(self):
        return {"args": self.args, "files": [{"name": f["name"], "kind": f["kind"], "text": list(f["bytes"]) if f["name"] in ("t1", "t2") else []} for f in self.files],
                "bad": self.badnames, "words": [{"name": a["v"], "text": list(a["v"].encode())} for a in self.args if a["v"]] + [{"name": "", "text": []}],
                "keys": {k: list(k.encode()) for k in KEYS}, "table": TABLE, "stubs": STUBS, "description": DESCRIPTION, "debug": DEBUG, "cdebug": CDEBUG,
                "typesystem": list(self.inp.typesystem.encode()), "language": list(self.inp.language.encode()), "cmdline": list(self.inp.cmdline.encode()),
                "observed": self.observed}

    def describe(self):
        return "files: %s\nstandard output %s\nmewa %s\n--- grammar good:\n%s" % (
            json.dumps({f["name"]: f["bytes"].decode("utf8", "replace")[:3000] for f in self.files if f["name"] not in ("good", "old")}),
            "to /dev/full" if self.full else "to a file", " ".join("'%s'" % a for a in self.forms), self.inp.text)


def observe(so, worlds):
    """Runs mewa on each; failure texts or None"""
    d = tempfile.mkdtemp(prefix="cli.")
    try:
        script = []
        for i, w in enumerate(worlds):
            e = os.path.join(d, str(i), "w")
            os.makedirs(e)
            for f in w.files:
                put(e, f["name"], f["bytes"])
            script.append("cd %s; timeout -k 1 %d %s %s >%s 2>../err; echo $? >../rc\n" % (
                e, proc.limit(30), os.path.join(so, "mewa"), " ".join(shlex.quote(x) for x in w.forms), "/dev/full" if w.full else "../out"))
        put(d, "run.sh", "".join(script).encode())
        proc.run(["/bin/sh", os.path.join(d, "run.sh")], cwd=d, timeout=60 + 2 * len(worlds), fsize=1 << 26)
        res = []
        for i, w in enumerate(worlds):
            e = os.path.join(d, str(i))
            rc = get(e, "rc")
            if rc is None or int(rc) >= 124:
                if rc is None or int(rc) in (124, 137):
                    proc.timeouts += 1
                res.append("mewa ended with %s" % ("the time limit" if rc is None or int(rc) in (124, 137) else "status %d" % int(rc)))
                continue
            changed = []
            before = {f["name"]: f["bytes"] for f in w.files}
            top = os.path.join(e, "w")
            for root, _, fs in os.walk(top):
                for n in fs:
                    p = os.path.relpath(os.path.join(root, n), top)
                    t = get(top, p)
                    if before.get(p) != t:
                        changed.append({"name": p, "text": w.inp.fold(t or b"")})
            for n in before:
                if not os.path.exists(os.path.join(top, n)):
                    changed.append({"name": n, "text": [-8]})
            w.observed = {"status": int(rc), "stdout": w.inp.fold(get(e, "out") or b""), "stderr": w.inp.fold(get(e, "err") or b"")[:400], "changed": changed}
            res.append(None)
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_spec(worlds):
    """{index: fault} of the recorded runs, and the TLC result"""
    fd, p = tempfile.mkstemp(prefix="cli.", suffix=".ndjson")
    try:
        with os.fdopen(fd, "w") as f:
            for i, w in enumerate(worlds):
                f.write(json.dumps({"id": i, **w.spec()}) + "\n")
        r = tlc.run("Cli", env={"CASES": p}, workers=1, timeout=800, mem="3g", cfg_text=CFG % 0)
    finally:
        os.remove(p)
    done, bad = {}, {}
    for line in r.out.splitlines():
        m = re.match(r'"(DONE|MISMATCH) (.*)"$', line)
        if m:
            x = json.loads(json.loads('"' + m.group(2) + '"'))
            (done if m.group(1) == "DONE" else bad)[x["id"]] = x
    if not r.ok or len(done) != len(worlds):
        raise RuntimeError("TLC failed on Cli:\n" + r.tail())
    return bad, done, r


def conforms(so, w):
    fail = observe(so, [w])[0]
    if fail:
        return fail
    bad, _, _ = check_spec([w])
    return bad[0]["fault"] if 0 in bad else None


def check_cases(ctx, so, worlds, what):
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        chunks = [worlds[k:k + 50] for k in range(0, len(worlds), 50)]
        fails = sum(ex.map(lambda c: observe(so, c), chunks), [])
    suspects = [w for w, f in zip(worlds, fails) if f]
    good = [w for w, f in zip(worlds, fails) if not f]
    parts = [good[k::8] for k in range(8) if good[k::8]]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for part, (bad, done, r) in zip(parts, ex.map(check_spec, parts)):
            ctx.tlc(r)
            suspects += [part[i] for i in sorted(bad)]
            for x in done.values():
                ctx.count("runs that " + {"run": "read a grammar", "fail": "are refused"}.get(x["st"], "tell something"))
    ctx.traces += len(good)
    ctx.events += sum(len(w.args) for w in good)
    for w in good[:1]:
        ctx.sample({"kind": what, "arguments": w.forms, "observed": {k: (v if k == "status" else str(v)[:200]) for k, v in w.observed.items()}})
    for w in suspects:
        again = conforms(so, w)
        if again is None:
            ctx.count("unconfirmed")
            continue
        ctx.violation("%s: %s: mewa %s" % (what, again, " ".join(w.forms)), "%s\n%s\nobserved: %s\n" % (again, w.describe(), str(getattr(w, "observed", None))[:3000]))
        if ctx.full():
            return


def model_args(ctx, n, limit):
    cfg = CFG % n + "INVARIANTS Laws Dump\n"
    r = tlc.run("Cli", env={"MODE": "model", "DUMP": "1"}, workers=8, timeout=850, mem="6g", cfg_text=cfg)
    if not r.ok:
        raise RuntimeError("TLC failed on Cli:\n" + r.tail())
    ctx.tlc(r)
    out = []
    for line in r.out.splitlines():
        m = re.match(r'"ARGS (.*)"$', line)
        if m:
            out.append(m.group(1))
    ctx.note("all sequences of up to %d arguments of the model: %d, laws checked on %d states" % (n, len(out), r.distinct))
    out.sort()
    if len(out) > limit:
        out = ctx.rng.sample(out, limit)
    return [json.loads(json.loads('"' + x + '"')) for x in out]
