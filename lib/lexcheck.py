"""Conformance of the lexers of generated compilers with spec/Lexer.tla."""
import concurrent.futures, json, os, re, shutil, tempfile

import lexgen, lrcheck, proc, tlc
from ctx import HERE

DRIVER = os.path.join(HERE, "driver", "lex.lua")


def observe(so, case):
    """Runs the generator and the compiler: sets the observations. Returns a failure text or None."""
    d = tempfile.mkdtemp(prefix="lx.")
    try:
        r = lrcheck.generate(so, d, case["text"])
        err = r.err.decode("utf8", "replace")
        if r.died:
            return "generator died (%s)" % ("does not end" if r.timed_out else r.rc)
        if r.rc != 0:
            return "lexer declarations rejected: " + err[-300:]
        with open(os.path.join(d, "target"), "w") as f:
            f.write("{Code}")
        names = []
        for k, x in enumerate(case["runs"]):
            names.append("in%d" % k)
            with open(os.path.join(d, names[-1]), "wb") as f:
                f.write(bytes(x["src"]))
        obs = []
        p = os.path.join(d, "res")
        for b in range(0, len(names), 2000):
            r = proc.run(["lua5.2", DRIVER, "table.lua", "res", *names[b:b + 2000]], cwd=d, env={"MEWA_SO_DIR": so}, timeout=60)
            if os.path.exists(p):
                with open(p, errors="surrogateescape") as f:
                    obs += [json.loads(line) for line in f if line.endswith("\n")]
                os.remove(p)
            if r.rc != 0 or r.timed_out:
                break
        for x, o in zip(case["runs"], obs):
            o["errtext"] = bytes(o.pop("err") or b"").decode("utf8", "replace")
            x["obs"] = o
        if r.rc != 0 or r.timed_out or len(obs) != len(case["runs"]):
            k = min(len(obs), len(case["runs"]) - 1)
            return "compiler %s on source %r" % ("does not end" if r.timed_out else "ended with status %d %r" % (r.rc, r.err[-300:]), bytes(case["runs"][k]["src"]))
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def spec_case(case, k):
    g = case["g"]
    b = lambda s: list(s.encode("utf8"))
    return {"id": k, "lexer": {"keywords": [b(x) for x in g["keywords"]], "kwnames": [x for x in g["keywords"]],
                               "patterns": [{"name": p["name"], "r": lexgen.clean(p["r"]), "sel": p["sel"]} for p in g["patterns"]],
                               "ignores": [lexgen.clean(r) for r in g["ignores"]],
                               "brackets": [{"open": b(x), "close": b(y)} for x, y in g["brackets"]],
                               "eolns": [b(x) for x in g["eolns"]], "indent": g["indent"], "tabsize": g["tabsize"]},
            "runs": [{"src": x["src"], "obs": {"st": x["obs"]["st"], "toks": x["obs"]["toks"], "line": x["obs"]["line"]}} for x in case["runs"]]}


def check_spec(cases, workers=8, timeout=600):
    return check_records([spec_case(c, k) for k, c in enumerate(cases)], workers, timeout)


def check_records(cases, workers=8, timeout=600):
    d = tempfile.mkdtemp(prefix="lxs.")
    try:
        p = os.path.join(d, "cases.json")
        with open(p, "w") as f:
            json.dump(cases, f)
        r = tlc.run("Lexer", env={"CASES": p}, workers=workers, timeout=timeout, mem="8g")
        recs = []
        for line in r.out.splitlines():
            m = re.match(r'"(MISMATCH|ANY|DONE) (.*)"$', line)
            if m:
                recs.append((m.group(1), json.loads(json.loads('"' + m.group(2) + '"'))))
        if not r.ok:
            raise RuntimeError("TLC failed on Lexer:\n" + r.tail())
        if {x["case"] for k, x in recs if k == "DONE"} != set(range(len(cases))):
            raise RuntimeError("Lexer did not finish all cases:\n" + r.tail())
        return r, recs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def show(case, run=None):
    s = "-- grammar\n" + case["text"]
    if run:
        s += "-- source %r\n-- observed %s\n" % (bytes(case["runs"][run - 1]["src"]), json.dumps(case["runs"][run - 1].get("obs")))
    return s


def conforms(so, case):
    fail = observe(so, case)
    if fail:
        return fail, None
    _, recs = check_spec([case], workers=1)
    for k, x in recs:
        if k == "MISMATCH":
            return "%s: %s" % (x["what"], json.dumps(x["detail"])[:600]), x["run"]
    return None, None


def check_cases(ctx, so, cases, what, batch=400):
    for b in range(0, len(cases), batch):
        part = cases[b:b + batch]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            fails = list(ex.map(lambda c: observe(so, c), part))
        suspects = [(c, f) for c, f in zip(part, fails) if f]
        good = [c for c, f in zip(part, fails) if not f]
        if good:
            r, recs = check_spec(good)
            ctx.tlc(r)
            seen = set()
            for k, x in recs:
                if k == "ANY":
                    ctx.count("undetermined_ties")
                elif k == "MISMATCH" and x["case"] not in seen:
                    seen.add(x["case"])
                    suspects.append((good[x["case"]], x["what"]))
        ctx.traces += sum(len(c["runs"]) for c in good)
        for c in good:
            ctx.count("lexers")
            for x in c["runs"]:
                ctx.count("source_" + x["obs"]["st"])
                ctx.events += len(x["obs"]["toks"])
        for c in good[:1]:
            ctx.sample({"kind": what, "grammar": c["text"], "source": repr(bytes(c["runs"][-1]["src"])), "tokens": c["runs"][-1]["obs"]["toks"][:20]})
        for c, text in suspects:
            again, run = conforms(so, c)
            if again is None:
                ctx.log("difference not reproduced, ignored:", text)
                ctx.count("unconfirmed")
                continue
            ctx.violation("%s: %s" % (what, again), "# %s\n" % again.replace("\n", " ") + show(c, run))
            if ctx.full():
                return


def make_cases(ctx, count, nsrc, indent=False, simple=False, source=None, tabsizes=None):
    cases = []
    for _ in range(count):
        g, text = lexgen.lexer(ctx.rng, indent, simple=simple, tabsizes=tabsizes)
        srcs = {(source or (lexgen.indented if indent else lexgen.source))(ctx.rng, g) for _ in range(nsrc)}
        cases.append({"g": g, "text": text, "runs": [{"src": list(s)} for s in sorted(srcs)]})
    return cases
