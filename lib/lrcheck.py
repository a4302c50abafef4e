"""Conformance of generated compilers with spec/LrMachine.tla."""
import concurrent.futures, json, os, re, shutil, tempfile

import lrgen, proc, tlc
from ctx import HERE

DRIVER = os.path.join(HERE, "driver", "compile.lua")
TPL = 'local typesystem = require( "%typesystem%")\nreturn %automaton%\n'
SYNTAX = re.compile(r"#601 .*?at line (\d+): (.*) \{ (.*) \}\s*$", re.S)


def generate(so, d, text, args=(), timeout=60, mem=proc.MEM):
    """Runs the generator on a grammar text in directory d: (proc.Result, name of the table file)"""
    with open(os.path.join(d, "g.g"), "w", encoding="utf8", errors="surrogateescape", newline="") as f:
        f.write(text)
    with open(os.path.join(d, "tpl"), "w") as f:
        f.write(TPL)
    return proc.run([os.path.join(so, "mewa"), *args, "-t", "tpl", "-g", "-o", "table.lua", "g.g"], cwd=d, timeout=timeout, mem=mem)


def compile_runs(so, d, sources, options=None, timeout=60, target="{Code}", prefix="in", mem=proc.MEM, traced=False):
    """Runs the table in d on the sources: (list of recorded runs, failure text or None)"""
    with open(os.path.join(d, "target"), "w") as f:
        f.write(target)
    with open(os.path.join(d, "job"), "w") as f:
        for k, s in enumerate(sources):
            with open(os.path.join(d, "%s%d" % (prefix, k)), "wb") as g:
                g.write(s if isinstance(s, bytes) else s.encode("utf8", "surrogateescape"))
            f.write("%s%d %s target out%d%s\n" % (prefix, k, (options[k] if options else None) or "-", k, " dbg%d" % k if traced else ""))
    r = proc.run(["lua5.2", DRIVER, "table.lua", "job", "res"], cwd=d, env={"MEWA_SO_DIR": so}, timeout=timeout, mem=mem)
    runs = []
    p = os.path.join(d, "res")
    if os.path.exists(p):
        with open(p, errors="replace") as f:
            for line in f:
                if line.endswith("\n"):
                    runs.append(json.loads(line))
    for k, o in enumerate(runs):
        if traced:
            with open(os.path.join(d, "dbg%d" % k), "rb") as f:
                o["debug"] = f.read().decode("utf8", "replace")
    if r.rc == 0 and not r.timed_out:
        return runs, None
    return runs, "does not end" if r.timed_out else "ended with status %d: %s" % (r.rc, (r.err or r.out).decode("utf8", "replace")[-400:])


def unquoted(t):
    """The shown form of a token without its kind of quotes: keywords are marked with a leading quote."""
    return "'" + t[1:-1] if len(t) > 2 and t[0] in "'\"" and t[-1] == t[0] else t


STEPS = [("S", re.compile(r"Shift token (?P<tok>.*) at line (?P<line>\d+) in state (?P<st>\d+), goto (?P<go>\d+)$")),
         ("R", re.compile(r"Reduce #(?P<n>\d+) to (?P<nt>\S+) by token (?P<tok>.*?) at line (?P<line>\d+) in state (?P<st>\d+)(?:, call (?P<call>.*))?, goto (?P<go>\d+)$")),
         ("A", re.compile(r"Accept$")),
         ("E", re.compile(r"Error token (?P<tok>.*) at line (?P<line>\d+) in state (?P<st>\d+)$")),
         ("C", re.compile(r"Calling Lua function: (?P<call>.*)$")),
         ("V", re.compile(r"Lua call result \[(?P<n>\d+)\]\n(?P<tok>.*)$"))]


def steps(text):
    """The debug output of a run as events of spec/LrMachine.tla."""
    res = []
    lines = re.sub(r"(call result \[\d+\])\n", r"\1\0", text).split("\n")
    for x in lines[:-1] if lines[-1] == "" else lines:
        x = x.replace("\0", "\n")
        e = {"k": "?", "tok": x, "line": 0, "st": 0, "go": 0, "n": 0, "nt": "", "call": ""}
        for k, pat in STEPS:
            m = pat.match(x)
            if m:
                e.update(k=k, tok="")
                e.update({f: int(v) if f in ("line", "st", "go", "n") else v for f, v in m.groupdict().items() if v is not None})
                e["tok"] = "$" if k == "E" and e["tok"] == '$ = ""' else unquoted(e["tok"]) if k in "SRE" else e["tok"]
                if "{" in e["call"]:
                    e["call"] = e["call"].replace("'", '"')
                break
        res.append(e)
    return res


def observed(o):
    """What a recorded run did, in the form of spec/LrMachine.tla."""
    res = {"st": "accept", "calls": o["calls"], "line": 0, "tok": "", "exp": [], "trace": steps(o["debug"]) if "debug" in o else []}
    if not o["ok"]:
        m = SYNTAX.search(o["err"])
        if m:
            res.update(st="error", line=int(m.group(1)), tok=unquoted(m.group(2)), exp=[unquoted(x) for x in m.group(3).split(", ") if x])
        elif "failed on purpose" in o["err"]:
            res["st"] = "fail"
        elif "#586" in o["err"] or re.search(r"[Nn]o Lua function", o["err"]):
            res["st"] = "leaf"
        else:
            res.update(st="other", tok=o["err"][:200])
    return res


def observe(so, case):
    """Runs generator and compiler for a case: sets case["gen"] and the observations. Returns a failure text or None."""
    d = tempfile.mkdtemp(prefix="lr.")
    try:
        r = generate(so, d, case["text"])
        err = r.err.decode("utf8", "replace")
        case["generr"] = err[-600:]
        if r.died:
            return "generator died (%s)" % ("does not end" if r.timed_out else r.rc)
        if r.rc != 0:
            if "#564" in err or "onflict" in err:
                case["conflict"] = True
                if os.path.exists(os.path.join(d, "table.lua")):
                    return "table written for a grammar rejected for conflicts"
                return None
            return "well-formed grammar rejected: " + err[-300:]
        case["conflict"] = False
        if re.search(r"[Ww]arning", err):
            return "grammar accepted with a warning: " + err[-300:]
        runs, fail = compile_runs(so, d, [x["src"] for x in case["runs"]], [x.get("opt") for x in case["runs"]], traced=case.get("traced", False))
        for x, o in zip(case["runs"], runs):
            x["obs"] = observed(o)
            x["raw"] = o.get("err", "") + ("\n-- debug output\n" + o["debug"] if "debug" in o else "")
        if fail or len(runs) != len(case["runs"]):
            k = min(len(runs), len(case["runs"]) - 1)
            return "compiler %s on source %r" % (fail, case["runs"][k]["src"][:300])
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def printed(t):
    return "'%s" % t["name"] if t["kw"] else t["name"]


def call_text(p, name):
    """A call as the debug output shows it: in a step of the parser, or (name) as the function called."""
    arg = p["arg"]
    if arg[:1] in "'\"" and arg:
        v = arg[1:-1]
        arg = v if name else "'%s'" % v if '"' in v else '"%s"' % v
    elif arg[:1] == "{":
        arg = arg.replace("'", '"').replace(" ", "")
    return p["call"] + (" " + arg if arg else "")


def spec_case(case, k):
    g = case["g"]
    return {"id": k, "conflict": case["conflict"], "binary": case.get("binary", False), "traced": case.get("traced", False),
            "g": {"nterm": len(g["terms"]), "nts": g["nts"], "names": [t["name"] for t in g["terms"]], "shown": [printed(t) for t in g["terms"]],
                  "kw": [t["kw"] for t in g["terms"]],
                  "prods": [{"l": p["l"], "r": p["r"], "prio": p["prio"], "assoc": p["assoc"], "call": p["call"], "arg": p["argv"],
                             "sf": p["sf"], "step": call_text(p, False), "name": call_text(p, True)} for p in g["prods"]]},
            "runs": [{"toks": x["toks"], "eofline": x["eofline"], "member": x.get("member", False),
                      "opt": x.get("opt") or "nil", "obs": x["obs"]} for x in case["runs"]] if not case["conflict"] else []}


def check_spec(cases, workers=8, timeout=600):
    """Runs LrMachine on the observed cases: (TlcResult, list of (kind, record))"""
    d = tempfile.mkdtemp(prefix="lrs.")
    try:
        p = os.path.join(d, "cases.json")
        with open(p, "w") as f:
            json.dump([spec_case(c, k) for k, c in enumerate(cases)], f)
        r = tlc.run("LrMachine", env={"CASES": p}, workers=workers, timeout=timeout, mem="8g")
        recs = []
        for line in r.out.splitlines():
            m = re.match(r'"(MISMATCH|SPURIOUS|BUILT|DONE|SPECERROR|UNSHOWN) (.*)"$', line)
            if m:
                recs.append((m.group(1), json.loads(json.loads('"' + m.group(2) + '"'))))
        if not r.ok:
            raise RuntimeError("TLC failed on LrMachine:\n" + r.tail())
        if {x["case"] for k, x in recs if k == "DONE"} != set(range(len(cases))):
            raise RuntimeError("LrMachine did not finish all cases:\n" + r.tail())
        return r, recs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def make_case(rng, g, words, text=None, header=None, shuffle=False, member=0.0, plain=False, options=False, traced=False):
    case = {"g": g, "text": text or lrgen.grammar_text(rng, g, header, shuffle), "runs": [], "traced": traced}
    for w in words:
        src, toks, eof = lrgen.source(rng, g, w, plain)
        case["runs"].append({"src": src, "toks": toks, "eofline": eof, "member": len(w) <= 7 and rng.random() < member,
                             "opt": rng.choice(['"opts"', '""', "false", "true", "0", "-7", "{a=1,b={1=false}}"]) if options and rng.random() < 0.5 else None})
    return case


def show(case, run=None):
    s = "-- grammar\n" + case["text"]
    if run:
        s += "-- source\n%s\n-- observed\n%s\n%s\n" % (case["runs"][run - 1]["src"], json.dumps(case["runs"][run - 1].get("obs")), case["runs"][run - 1].get("raw"))
    return s + ("-- generator: %s\n" % case.get("generr", "") if case.get("generr") else "")


def conforms(so, case):
    """Text of the difference between the case and the model, or None."""
    fail = observe(so, case)
    if fail:
        return fail, None
    _, recs = check_spec([case], workers=1)
    for k, x in recs:
        if k == "MISMATCH":
            return "%s: %s" % (x["what"], json.dumps(x["detail"])[:600]), x["run"]
    return None, None


def check_cases(ctx, so, cases, what, conflicts=True, batch=400):
    """Observes and checks all cases and reports violations. Conflict verdicts count for the property if conflicts is set."""
    for b in range(0, len(cases), batch):
        part = cases[b:b + batch]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            fails = list(ex.map(lambda c: observe(so, c), part))
        suspects = [(c, f) for c, f in zip(part, fails) if f]
        good = [c for c, f in zip(part, fails) if not f]
        if good:
            r, recs = check_spec(good)
            ctx.tlc(r)
            seen = set()
            wrong = {x["case"] for k, x in recs if k == "MISMATCH"}
            for k, x in recs:
                if k == "BUILT":
                    ctx.count("tables", 1)
                    ctx.count("lr0_states", x["states"])
                    ctx.count("verdict_" + x["exact"])
                elif k == "UNSHOWN":
                    ctx.count("first_step_at_end_unshown_known")
                elif k == "SPURIOUS":
                    ctx.count("spurious_conflicts_known")
                elif k == "SPECERROR" and x["case"] not in wrong:
                    raise RuntimeError("specification contradicts itself (language and automaton): %s\n%s" % (x, show(good[x["case"]], x["run"])))
                elif k == "MISMATCH" and x["case"] not in seen:
                    seen.add(x["case"])
                    suspects.append((good[x["case"]], x["what"]))
        for c in good:
            if not c["conflict"]:
                ctx.traces += len(c["runs"])
                ctx.count("grammars_run")
                for x in c["runs"]:
                    ctx.count("source_" + x["obs"]["st"])
                    ctx.events += len(x["toks"])
        ctx.traces += len(part)
        for c in good[:1]:
            ctx.sample({"kind": what, "grammar": c["text"], "conflict": c["conflict"],
                        "source": c["runs"][-1]["src"] if c["runs"] and not c["conflict"] else None,
                        "outcome": c["runs"][-1]["obs"] if c["runs"] and not c["conflict"] else None})
        for c, text in suspects:
            for x in c["runs"]:
                x.pop("obs", None)
            again, run = conforms(so, c)
            if again is None:
                ctx.log("difference not reproduced, ignored:", text)
                ctx.count("unconfirmed")
                continue
            ctx.violation("%s: %s" % (what, again), "# %s\n" % again.replace("\n", " ") + show(c, run))
            if ctx.full():
                return


def interleaving(rng, cases):
    """Operations on a compiler for each of the cases: created, run, dropped, created again, with collections in between."""
    ops, alive, left = [], set(), [0] * len(cases)
    while any(n < len(c["runs"]) for n, c in zip(left, cases)):
        k = rng.choice([k for k, c in enumerate(cases) if left[k] < len(c["runs"])])
        if k not in alive:
            ops.append(("new", k))
            alive.add(k)
        if rng.random() < 0.12:
            d = rng.choice(sorted(alive))
            ops.append(("drop", d))
            alive.discard(d)
        elif rng.random() < 0.12:
            ops.append(("new", k))  # replaced by another one
        elif rng.random() < 0.15:
            ops.append(("gc",))
        else:
            for _ in range(rng.randint(1, 3)):
                if left[k] < len(cases[k]["runs"]):
                    ops.append(("run", k, left[k]))
                    left[k] += 1
    return ops


def observe_interleaved(so, cases, ops):
    """Runs the operations in one process: sets the observations of the cases. Returns a failure text or None."""
    top = tempfile.mkdtemp(prefix="lrm.")
    try:
        job = []
        for k, c in enumerate(cases):
            d = os.path.join(top, "g%d" % k)
            os.mkdir(d)
            r = generate(so, d, c["text"])
            if r.rc != 0 or r.died:
                return "grammar rejected that was accepted before"
            c["conflict"], c["generr"] = False, ""
            for j, x in enumerate(c["runs"]):
                with open(os.path.join(d, "in%d" % j), "wb") as f:
                    f.write(x["src"] if isinstance(x["src"], bytes) else x["src"].encode("utf8", "surrogateescape"))
        with open(os.path.join(top, "target"), "w") as f:
            f.write("{Code}")
        for op in ops:
            if op[0] == "gc":
                job.append("gc")
            elif op[0] == "new":
                job.append("new %d g%d/table.lua" % (op[1], op[1]))
            elif op[0] == "drop":
                job.append("drop %d" % op[1])
            else:
                job.append("run %d g%d/in%d %s target out" % (op[1], op[1], op[2], cases[op[1]]["runs"][op[2]].get("opt") or "-"))
        with open(os.path.join(top, "job"), "w") as f:
            f.write("\n".join(job) + "\n")
        r = proc.run(["lua5.2", DRIVER, "-", "job", "res"], cwd=top, env={"MEWA_SO_DIR": so}, timeout=120)
        res = []
        if os.path.exists(os.path.join(top, "res")):
            with open(os.path.join(top, "res"), errors="replace") as f:
                res = [json.loads(x) for x in f if x.endswith("\n")]
        runs = [op for op in ops if op[0] == "run"]
        if r.rc != 0 or len(res) != len(runs):
            return "compilers ended with status %s: %s" % (r.rc, (r.err or r.out).decode("utf8", "replace")[-300:])
        for op, o in zip(runs, res):
            x = cases[op[1]]["runs"][op[2]]
            x["obs"], x["raw"] = observed(o), o.get("err", "")
        return None
    finally:
        shutil.rmtree(top, ignore_errors=True)


def check_interleaved(ctx, so, groups, what):
    """Groups of cases, each group interleaved in one process."""
    flat = [c for g in groups for c in g]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda c: c.update(usable=not observe(so, c) and not c["conflict"]), flat))
    groups = [[c for c in g if c["usable"]] for g in groups]
    plans = [(g, interleaving(ctx.rng, g)) for g in groups if g]

    def judge(plans):
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            fails = list(ex.map(lambda p: observe_interleaved(so, *p), plans))
        good = [(k, c) for k, (p, f) in enumerate(zip(plans, fails)) if not f for c in p[0]]
        bad = {k: f for k, f in enumerate(fails) if f}
        if good:
            r, recs = check_spec([c for _, c in good])
            ctx.tlc(r)
            for kind, x in recs:
                if kind == "MISMATCH":
                    bad.setdefault(good[x["case"]][0], "%s: %s\n%s" % (x["what"], json.dumps(x["detail"])[:600], show(good[x["case"]][1], x["run"])))
        return bad

    bad = judge(plans)
    ctx.traces += len(plans)
    for p in plans:
        ctx.events += sum(1 for op in p[1] if op[0] == "run")
    if plans:
        ctx.sample({"kind": what, "grammars": len(plans[-1][0]), "operations": ["%s %s" % (op[0], op[1:]) for op in plans[-1][1][:20]]})
    for k in sorted(bad):
        again = judge([plans[k]])
        if 0 not in again:
            ctx.log("difference not reproduced, ignored:", bad[k][:300])
            ctx.count("unconfirmed")
            continue
        ops = "\n".join("-- %s %s" % (op[0], op[1:]) for op in plans[k][1])
        ctx.violation("%s: %s" % (what, again[0].split("\n")[0]), "# %s\n-- operations\n%s\n" % (again[0], ops))
        if ctx.full():
            return
