"""Conformance of the report of the generator (mewa -g -d) with spec/Report.tla."""
import concurrent.futures, json, os, re, shutil, tempfile

import lrcheck, lrgen, tlc

WARNING = re.compile(r'^Warning in .*?: #(\d+) "[^"]*": (.*)$')
HEAD = re.compile(r"([A-Za-z_]\w*)(?:/([LR]?)(\d+))? = ?")


class Unreadable(Exception):
    pass


def canon(text):
    """A call as lrcheck.call_text writes it."""
    f, _, arg = text.partition(" ")
    if arg[:1] in ("'", '"') and arg:
        v = arg[1:-1]
        return "%s '%s'" % (f, v) if '"' in v else '%s "%s"' % (f, v)
    return f + (" " + arg.replace("'", '"').replace(" ", "") if arg[:1] == "{" else " " + arg if arg else "")


class Names:
    def __init__(self, g):
        self.nt = {n: 101 + k for k, n in enumerate(g["nts"])}
        self.term = {lrcheck.printed(t): k for k, t in enumerate(g["terms"], 1)}
        self.prod = {(p["l"], tuple(p["r"])): (k, p) for k, p in enumerate(g["prods"], 1)}

    def terminal(self, t):
        return 0 if t == "$" else self.term.get(lrcheck.unquoted(t), -1)

    def production(self, text):
        """[p, d, sf, tail] of the text of a production, with a dot or not: p = 0 if the grammar has none such"""
        m = HEAD.match(text)
        if not m:
            raise Unreadable(text)
        rest, right, dot = text[m.end():].lstrip(" "), [], None
        sf = tail = ""
        while rest:
            if rest[0] == '"':
                e = rest.index('"', 1)
                # a keyword may be a double quote
                right.append(self.term.get("'" + rest[1:e], -1))
                rest = rest[e + 1:].lstrip(" ")
                continue
            if rest[0] == "(":
                t = re.match(r"\((?:(step|scope)(?::(\d+))?|(\d+))\)$", rest)
                if not t:
                    raise Unreadable(text)
                sf, tail = t.group(1) or "", t.group(2) or t.group(3) or ""
                break
            w, _, rest = rest.partition(" ")
            if w == ".":
                dot = len(right)
            else:
                right.append(self.nt[w] if w in self.nt else self.term.get(w, -1))
        k, p = self.prod.get((self.nt.get(m.group(1), -1), tuple(right)), (0, None))
        if p and (int(m.group(3) or 0) != p["prio"] or (m.group(2) or "") != p["assoc"]):
            k = 0
        return {"p": k, "d": dot if dot is not None else -1, "sf": sf, "tail": tail}


def blocks(lines):
    """Lines under [n] as a list indexed by n; the numbers have to be those from 1."""
    res = []
    for x in lines:
        m = re.match(r"\[(\d+)\]$", x)
        if m:
            n = int(m.group(1))
            if n < 1 or n > 5000:
                raise Unreadable(x)
            while len(res) < n:
                res.append(None)
            if res[n - 1] is not None:
                raise Unreadable("state %d twice" % n)
            res[n - 1] = []
        elif x.startswith("\t") and res and res[-1] is not None:
            res[-1].append(x[1:])
        else:
            raise Unreadable(x)
    return [x or [] for x in res]


def parse(g, text):
    """The report as spec/Report.tla reads it."""
    nm = Names(g)
    sections, cur = {}, None
    for x in text.split("\n"):
        m = re.match(r"-- (.*):$", x)
        if m:
            cur = re.sub(r" \(.*\)$", "", m.group(1))
            if cur in sections:
                raise Unreadable(x)
            sections[cur] = []
        elif x and cur:
            sections[cur].append(x)
    sec = lambda n: sections.get(n, [])
    rep = {"terms": [], "nts": [], "prods": [], "lr0": [], "cores": [], "lalr": [], "actions": [], "gotos": [], "solved": 0, "messages": [], "steps": []}
    for x in sec("Lexems"):
        m = re.match(r"(TOKEN|KEYWORD) (\S+) .* ~ (\d+)$", x)
        if m:
            rep["terms"].append({"name": ("'" if m.group(1) == "KEYWORD" else "") + m.group(2), "id": int(m.group(3))})
    for k, x in enumerate(sec("Nonterminals"), 1):
        m = re.match(r"\((\d+)\) (\w+)$", x)
        rep["nts"].append(m.group(2) if m and int(m.group(1)) == k else x)
    calls = {}
    for x in sec("Function calls"):
        m = re.match(r"\((\d+)\) (\w+)(?:, (.*))?$", x)
        if not m:
            raise Unreadable(x)
        calls[m.group(1)] = canon(m.group(2) + (" " + m.group(3) if m.group(3) is not None else ""))
    resolve = lambda tail: calls.get(tail, "?") if tail else ""
    for x in sec("Productions"):
        p = nm.production(x)
        rep["prods"].append({"p": p["p"], "sf": p["sf"], "call": resolve(p["tail"])})
    item = lambda x: {k: v for k, v in nm.production(x).items() if k in "pd"}
    rep["lr0"] = [[item(x) for x in b] for b in blocks(sec("LR(0) states"))]
    rep["cores"] = [[item(x) for x in b] for b in blocks(sec("LR(0) state cores"))]
    follow = {}
    for x in sec("LR(1) used FOLLOW sets labeled"):
        m = re.match(r"\[(\d+)\]: \{(.*)\}$", x)
        if not m or m.group(1) in follow:
            raise Unreadable(x)
        follow[m.group(1)] = [nm.terminal(t) for t in m.group(2).split(" ") if t]
    for b in blocks(sec("LALR(1) states")):
        q = []
        for x in b:
            m = re.match(r"(.*?)(?:, FOLLOW \[(\d+)\])? -> (?:(ACCEPT)|(SHIFT) (\S+) GOTO (\d+)|(GOTO) (\d+)|(REDUCE) (\S+) #(\d+)(?: CALL (.*))?)$", x)
            if not m:
                raise Unreadable(x)
            p = nm.production(m.group(1))
            kind = (m.group(3) or m.group(4) or m.group(7) or m.group(9)).lower()
            if (m.group(2) is None) != (kind == "accept") or m.group(2) and m.group(2) not in follow:
                raise Unreadable(x)
            q.append({"p": p["p"], "d": p["d"], "tailsf": p["sf"], "tail": resolve(p["tail"]), "follow": follow[m.group(2)] if m.group(2) else [], "do": kind,
                      "sym": nm.terminal(m.group(5)) if m.group(5) else 0, "go": int(m.group(6) or m.group(8) or 0),
                      "nt": m.group(10) or "", "n": int(m.group(11) or 0), "call": canon(m.group(12)) if m.group(12) else ""})
        rep["lalr"].append(q)
    for b in blocks(sec("Action table")):
        q = []
        for x in b:
            m = re.match(r"(\S+) => (?:(Shift) goto (\d+)|(Reduce) #(\d+) (\S+)(?: call (.*))?|(Accept))$", x)
            if not m:
                raise Unreadable(x)
            q.append({"t": nm.terminal(m.group(1)), "k": (m.group(2) or m.group(4) or m.group(8))[0], "go": int(m.group(3) or 0), "n": int(m.group(5) or 0),
                      "nt": m.group(6) or "", "call": canon(m.group(7)) if m.group(7) else ""})
        rep["actions"].append(q)
    for b in blocks(sec("Goto table")):
        q = []
        for x in b:
            m = re.match(r"(\S+) => (\d+)$", x)
            if not m:
                raise Unreadable(x)
            q.append({"nt": m.group(1), "go": int(m.group(2))})
        rep["gotos"].append(q)
    for x in sec("Statistics"):
        m = re.match(r" \* SHIFT/REDUCE conflicts solved by priority (\d+)$", x)
        if m:
            rep["solved"] = int(m.group(1))
    return rep


def messages(g, err):
    nm, res = Names(g), []
    split = lambda t: [nm.production(x)["p"] for x in re.split(r', (?=[A-Za-z_]\w*(?:/[LR]?\d+)? = )', t)]
    for x in err.splitlines():
        m = WARNING.match(x)
        if not m:
            continue
        code, t = int(m.group(1)), m.group(2)
        m = re.match(r'(.*) \.\.\. -> (\S+) \(\w+ != \w+\)$', t)
        if m:
            tok = m.group(2)
            # the prefix of a production up to the token: all productions that begin so
            pre = nm_prefix(nm, m.group(1))
            tt = nm.term.get("'" + tok[1:-1] if tok[0] == '"' else tok, -1)
            res.append({"code": code, "ts": [tt], "ps": pre, "all": False, "prio": True})
            continue
        m = re.match(r"(.*) (?:->\|<-|->|<-) (\S+) \[(.*)\]$", t)
        if m:
            res.append({"code": code, "ts": [nm.terminal(m.group(2))], "ps": split(m.group(3)), "all": True, "prio": False})
            continue
        m = re.match(r"(.* = .*) <- (.*?)(?: \(\w+ != \w+\))?$", t)
        if m:
            res.append({"code": code, "ts": [nm.terminal(z) for z in m.group(2).split(" ") if z], "ps": split(m.group(1)), "all": False, "prio": False})
            continue
        raise Unreadable(x)
    return res


def nm_prefix(nm, text):
    """Numbers of the productions with the priority and the begin shown."""
    m = HEAD.match(text)
    if not m:
        raise Unreadable(text)
    rest = text[m.end():]
    right = []
    for w in re.findall(r'"[^"]*"|\S+', rest):
        right.append(nm.term.get("'" + w[1:-1], -1) if w[0] == '"' else nm.nt[w] if w in nm.nt else nm.term.get(w, -1))
    return [k for (l, r), (k, p) in sorted(nm.prod.items(), key=lambda z: z[1][0])
            if l == nm.nt.get(m.group(1)) and list(r[:len(right)]) == right and p["prio"] == int(m.group(3) or 0) and p["assoc"] == (m.group(2) or "")] or [0]


def token(nm, s):
    t = s["tok"]
    return nm.term.get(t, -1) if t.startswith("'") else 0 if t in ("$", "") else nm.term.get(t.split(" = ")[0], -1)


def observe(so, case):
    """Runs generator and compiler: sets case["rep"]. Returns a failure text or None."""
    d = tempfile.mkdtemp(prefix="rep.")
    try:
        g = case["g"]
        r = lrcheck.generate(so, d, case["text"], ("-d", "report"))
        err = r.err.decode("utf8", "replace")
        case["generr"] = err[-2000:]
        if r.died:
            return "generator died (%s)" % ("does not end" if r.timed_out else r.rc)
        case["conflict"] = r.rc != 0 and "#564" in err
        if r.rc != 0 and not case["conflict"]:
            return "well-formed grammar rejected: " + err[-300:]
        try:
            with open(os.path.join(d, "report"), "rb") as f:
                case["report"] = f.read().decode("utf8", "replace")
        except OSError:
            return "no report written"
        try:
            case["rep"] = parse(g, case["report"])
            if case["conflict"]:
                case["rep"]["messages"] = messages(g, err)
        except (Unreadable, ValueError, AttributeError) as x:
            return "the report has a line that is none of the kind expected: %s" % str(x)[:300]
        for key in ("lr0", "cores", "lalr"):
            for k, q in enumerate(case["rep"][key], 1):
                if any(i["p"] == 0 for i in q):
                    return "the report shows an item of no production of the grammar in state %d (%s)" % (k, key)
        if not case["conflict"] and case["runs"]:
            runs, fail = lrcheck.compile_runs(so, d, [x["src"] for x in case["runs"]], traced=True)
            if fail:
                return "compiler %s" % fail
            nm = Names(g)
            for o in runs:
                for s in lrcheck.steps(o["debug"]):
                    if s["k"] in ("S", "R", "E"):
                        case["rep"]["steps"].append({"st": s["st"], "t": token(nm, s), "k": s["k"], "go": s["go"], "n": s["n"], "nt": s["nt"]})
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def spec_case(case, k):
    g = case["g"]
    return {"id": k, "conflict": case["conflict"], "rep": case["rep"],
            "g": {"nterm": len(g["terms"]), "nts": g["nts"], "shown": [lrcheck.printed(t) for t in g["terms"]],
                  "prods": [{"l": p["l"], "r": p["r"], "prio": p["prio"], "assoc": p["assoc"], "sf": p["sf"], "call": lrcheck.call_text(p, False)} for p in g["prods"]]}}


def check_spec(cases, workers=8, timeout=600):
    d = tempfile.mkdtemp(prefix="reps.")
    try:
        p = os.path.join(d, "cases.json")
        with open(p, "w") as f:
            json.dump([spec_case(c, k) for k, c in enumerate(cases)], f)
        r = tlc.run("Report", env={"CASES": p}, workers=workers, timeout=timeout, mem="8g")
        recs = []
        for line in r.out.splitlines():
            m = re.match(r'"(MISMATCH|DONE) (.*)"$', line)
            if m:
                recs.append((m.group(1), json.loads(json.loads('"' + m.group(2) + '"'))))
        if not r.ok:
            raise RuntimeError("TLC failed on Report:\n" + r.tail())
        if {x["case"] for k, x in recs if k == "DONE"} != set(range(len(cases))):
            raise RuntimeError("Report did not finish all cases:\n" + r.tail())
        return r, recs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def conforms(so, case):
    fail = observe(so, case)
    if fail:
        return fail
    _, recs = check_spec([case], workers=1)
    for k, x in recs:
        if k == "MISMATCH":
            return "%s: %s" % (x["what"], json.dumps(x["detail"])[:600])
    return None


def show(case):
    return "-- grammar\n%s-- messages\n%s\n-- report\n%s\n" % (case["text"], case.get("generr", ""), case.get("report", "")[:200000])


def check_cases(ctx, so, cases, what, batch=300):
    for b in range(0, len(cases), batch):
        part = cases[b:b + batch]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            fails = list(ex.map(lambda c: observe(so, c), part))
        suspects = [c for c, f in zip(part, fails) if f]
        good = [c for c, f in zip(part, fails) if not f]
        if good:
            r, recs = check_spec(good)
            ctx.tlc(r)
            for k, x in recs:
                if k == "DONE":
                    ctx.traces += 1
                    ctx.events += x["states"] + x["steps"] + x["messages"]
                    ctx.count("states_of_reports", x["states"])
                    ctx.count("conflict_messages", x["messages"])
                    ctx.count("steps_of_compilers", x["steps"])
            bad = sorted({x["case"] for k, x in recs if k == "MISMATCH"})
            suspects += [good[k] for k in bad]
        for c in suspects[:12]:
            if ctx.full():
                return
            f = conforms(so, c)
            if f:
                ctx.violation("%s: %s" % (what, f), show(c))
        ctx.log("%s: %d of %d reports, %d suspects" % (what, min(b + batch, len(cases)), len(cases), len(suspects)))
        if ctx.full():
            return
    if cases and cases[0].get("rep"):
        ctx.sample({"grammar": cases[0]["text"], "states": len(cases[0]["rep"]["lr0"])})
