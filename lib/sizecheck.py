"""Conformance of generator and compilers with the families of any size of spec/Sizes.tla."""
import concurrent.futures, json, os, re, shutil, tempfile

import lrcheck, proc, tlc
from ctx import HERE

DRIVER = os.path.join(HERE, "driver", "size.lua")


def request(f, k=1, n=1, num=1, den=1):
    return {"f": f, "k": k, "n": n, "num": num, "den": den}


def grammar_text(g):
    lines = ['% LANGUAGE "sizes";', '% TYPESYSTEM "verifts";', '% COMMENT "/*" "*/";', '% COMMENT "//";']
    lines += ['%s: "%s";' % (x["n"], x["pat"]) for x in g["lex"]]
    for p in g["prods"]:
        r = " ".join('"%s"' % x[1] if x[0] == "kw" else x[1] for x in p["r"])
        c = " ".join(([p["sf"]] if p["sf"] else []) + ([p["call"] + (' "%s"' % p["arg"] if p["arg"] else "")] if p["call"] else []))
        lines.append("%s%s = %s%s;" % (p["l"], "/" + p["pr"] if p["pr"] else "", r, " (%s)" % c if c else ""))
    return "\n".join(lines) + "\n"


def source_text(words):
    out, line = [], 1
    for w, l in words:
        out.append("\n" * (l - line) if l > line else " " if out else "")
        out.append(w)
        line = l
    return "".join(out)


PARTS = 4


def in_parts(f, cases):
    """f on parts of the list at the same time: the parts (interleaved) as (indices, result)"""
    parts = [p for p in (list(range(k, len(cases), PARTS)) for k in range(PARTS)) if p]
    with concurrent.futures.ThreadPoolExecutor(PARTS) as ex:
        return list(zip(parts, ex.map(lambda p: f([cases[k] for k in p]), parts)))


def written(requests):
    """Grammars and words of the requests, by the specification."""
    res = [None] * len(requests)
    for part, ws in in_parts(write_part, requests):
        for k, w in zip(part, ws):
            res[k] = w
    return res


def write_part(requests):
    d = tempfile.mkdtemp(prefix="size.")
    try:
        p, o = os.path.join(d, "req.json"), os.path.join(d, "out.json")
        with open(p, "w") as f:
            json.dump(requests, f)
        r = tlc.run("Sizes", env={"REQUESTS": p, "OUT": o}, workers=1, timeout=600, mem="6g")
        if not r.ok or not os.path.exists(o):
            raise RuntimeError("TLC failed on Sizes:\n" + r.tail())
        with open(o) as f:
            return json.load(f)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def observe(so, q, w):
    """What generator and compiler do: (observation, failure text or None)"""
    d = tempfile.mkdtemp(prefix="size.")
    try:
        obs = {"gen": 0, "st": "", "rows": [], "tok": "", "line": 0, "exp": []}
        r = lrcheck.generate(so, d, grammar_text(w["g"]), timeout=120, mem=6 << 30)
        err = r.err.decode("utf8", "replace")
        if r.died:
            return obs, "generator %s" % ("does not end" if r.timed_out else "died with status %d" % r.rc)
        if r.rc != 0:
            m = re.search(r"#(\d+)", err)
            obs["gen"] = int(m.group(1)) if m else 1
            obs["tok"] = err[-200:]
            return obs, "table written by a generator that failed" if os.path.exists(os.path.join(d, "table.lua")) else None
        with open(os.path.join(d, "in"), "w") as f:
            f.write(source_text(w["words"]))
        r = proc.run(["lua5.2", DRIVER, "table.lua", "in", "res"], cwd=d, env={"MEWA_SO_DIR": so}, timeout=100, mem=6 << 30, fsize=1 << 30)
        p = os.path.join(d, "res")
        if r.rc != 0 or not os.path.exists(p):
            return obs, "compiler %s" % ("does not end" if r.timed_out else "ended with status %d: %s" % (r.rc, r.err.decode("utf8", "replace")[-300:]))
        with open(p, errors="replace") as f:
            o = json.load(f)
        x = lrcheck.observed({"ok": o["ok"], "err": o["err"], "calls": []})
        obs.update(st=x["st"], rows=o["rows"], tok=x["tok"], line=x["line"], exp=x["exp"])
        return obs, None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_spec(cases, mem="5g"):
    """cases: requests with observations. (TlcResults, {case: difference})"""
    rs, bad = [], {}
    for part, (r, diff) in in_parts(lambda c: check_part(c, mem), cases):
        rs.append(r)
        bad.update({part[k]: t for k, t in diff.items()})
    return rs, bad


def check_part(cases, mem):
    d = tempfile.mkdtemp(prefix="size.")
    try:
        p = os.path.join(d, "cases.ndjson")
        with open(p, "w") as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        r = tlc.run("Sizes", env={"CASES": p}, workers=1, timeout=900, mem=mem)
        if not r.ok:
            raise RuntimeError("TLC failed on Sizes:\n" + r.tail())
        bad, done = {}, set()
        for line in r.out.splitlines():
            m = re.match(r'"(MISMATCH|DONE) (.*)"$', line)
            if m:
                x = json.loads(json.loads('"' + m.group(2) + '"'))
                if m.group(1) == "DONE":
                    done.add(x["case"])
                else:
                    bad[x["case"]] = "%s: got %s, expected %s" % (x["what"], json.dumps(x["got"])[:300], json.dumps(x["want"])[:300])
        if done != set(range(len(cases))):
            raise RuntimeError("Sizes did not finish all cases:\n" + r.tail())
        return r, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def machine_case(q, w, obs):
    """The case in the form of lrcheck, to compare the same observation with spec/LrMachine.tla."""
    g = w["g"]
    terms = [{"name": x["n"], "kw": False} for x in g["lex"]]
    terms += [{"name": x, "kw": True} for x in dict.fromkeys(y[1] for p in g["prods"] for y in p["r"] if y[0] == "kw")]
    term = {(t["kw"], t["name"]): k for k, t in enumerate(terms, 1)}
    nts = {x: 101 + k for k, x in enumerate(dict.fromkeys(p["l"] for p in g["prods"]))}
    sym = lambda x: term[(True, x[1])] if x[0] == "kw" else nts[x[1]] if x[1] in nts else term[(False, x[1])]
    prods = [{"l": nts[p["l"]], "r": [sym(x) for x in p["r"]], "prio": int(p["pr"][1:] or 0) if p["pr"] else 0, "assoc": p["pr"][:1],
              "call": p["call"], "arg": p["arg"], "argv": '"%s"' % p["arg"] if p["arg"] else "nil", "sf": {"": "", ">>": "step", "{}": "scope"}[p["sf"]]}
             for p in g["prods"]]

    def tok(x, line):
        if (True, x) in term:
            return {"t": term[(True, x)], "v": x, "line": line}
        for k, t in enumerate(g["lex"], 1):
            if re.fullmatch(t["pat"], x):
                return {"t": k, "v": x, "line": line}

    roots, path = [], []
    for row in obs["rows"]:
        dp, name, v, line, sk, s1, s2 = row
        call = name in {p["call"] for p in g["prods"]}
        node = {"k": 1 if call else 0, "n": name, "v": v, "line": line, "sk": sk, "s1": s1, "s2": s2, "ch": []}
        del path[dp - 1:]
        (path[-1]["ch"] if path else roots).append(node)
        path.append(node)
    o = {"st": obs["st"], "calls": [{"fn": x["n"], "node": x, "args": []} for x in roots], "line": obs["line"], "tok": obs["tok"], "exp": obs["exp"]}
    toks = [tok(x, l) for x, l in w["words"] if x[0] != "/"]
    return {"g": {"terms": terms, "nts": list(nts), "prods": prods}, "conflict": False,
            "runs": [{"toks": toks, "eofline": toks[-1]["line"] if toks else 1, "obs": o}]}


def show(q, w):
    s = "-- %s\n" % json.dumps(q)
    t = grammar_text(w["g"])
    u = source_text(w["words"])
    return s + "-- grammar\n%s\n-- source\n%s\n" % (t if len(t) < 4000 else t[:4000] + "...", u if len(u) < 4000 else u[:4000] + "...")


def check_cases(ctx, so, requests, what, small=False):
    ws = written(requests)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        obs = list(ex.map(lambda a: observe(so, *a), zip(requests, ws)))
    bad = {k: f for k, (o, f) in enumerate(obs) if f}
    good = [k for k in range(len(requests)) if k not in bad]
    if good:
        rs, diff = check_spec([dict(requests[k], obs=obs[k][0]) for k in good])
        for r in rs:
            ctx.tlc(r)
        bad.update({good[k]: t for k, t in diff.items()})
    if small:
        run = [k for k in good if obs[k][0]["gen"] == 0 and k not in bad]
        r, recs = lrcheck.check_spec([machine_case(requests[k], ws[k], obs[k][0]) for k in run])
        ctx.tlc(r)
        for kind, x in recs:
            if kind == "MISMATCH":
                raise RuntimeError("closed form and machine differ: %s\n%s" % (x, show(requests[run[x["case"]]], ws[run[x["case"]]])))
        ctx.count("closed_forms_agreeing_with_the_machine", len(run))
    for k, q in enumerate(requests):
        ctx.count("%s_%s" % (what, q["f"]))
        ctx.events += len(ws[k]["words"])
        ctx.count("generator_refuses" if ws[k]["verdict"] else "runs")
    ctx.traces += len(requests)
    if good:
        k = good[-1]
        ctx.sample({"kind": what, "case": requests[k], "productions": len(ws[k]["g"]["prods"]), "words": len(ws[k]["words"]), "verdict": ws[k]["verdict"], "rows": len(obs[k][0]["rows"])})
    for k in sorted(bad):
        o, fail = observe(so, requests[k], ws[k])
        if not fail:
            fail = check_spec([dict(requests[k], obs=o)])[1].get(0)
        if not fail:
            ctx.note("a difference did not show again: " + bad[k][:200])
            continue
        ctx.violation("%s %s: %s" % (what, json.dumps(requests[k]), fail), show(requests[k], ws[k]) + "-- " + fail + "\n", ".txt")
        return


def long_token_dies(so):
    """The known finding: std::regex recurses for each character of a token."""
    q = request("token", 1, 300000)
    w = written([q])[0]
    return "status -" in str(observe(so, q, w)[1])
