"""Conformance of mewa.tostring with spec/LuaValue.tla."""
import concurrent.futures, json, os, re, shutil, tempfile

import proc, tlc
from ctx import HERE

DRIVER = os.path.join(HERE, "driver", "value.lua")


def num(x):
    x = float(x)
    return {"t": "num", "n": "nan" if x != x else "0" if x == 0 else "%.17g" % x}


def string(b):
    return {"t": "str", "c": list(b)}


def numtext(n):
    return {"inf": "1/0", "-inf": "-1/0", "nan": "0/0"}.get(n, "(" + n + ")")


def atom(v):
    t = v["t"]
    if t == "nil":
        return "nil"
    if t == "bool":
        return "true" if v["b"] else "false"
    if t == "num":
        return numtext(v["n"])
    return '"%s"' % "".join("\\%03d" % c for c in v["c"])


def builder(v, rng=None):
    """Lua function that builds the value; with rng in another order, with entries that come and go and equal subtables shared."""
    lines, memo = [], {}
    cnt = [0]

    def build(v, around):
        if v["t"] == "up":
            return "T[%d]" % around[v["up"] - 1]
        if v["t"] != "tab":
            return atom(v)
        key = json.dumps(v, sort_keys=True)
        if rng and "up" not in key and key in memo and rng.random() < 0.5:
            return "T[%d]" % memo[key]
        cnt[0] += 1
        k = cnt[0]
        lines.append("T[%d]={}" % k)
        es = list(v["e"])
        if rng:
            rng.shuffle(es)
            tmp = [i for i in range(100, 100 + rng.randint(0, 5))] if rng.random() < 0.3 else []
            for i in tmp:
                lines.append("T[%d][%d]=1 T[%d]['#%d']=1" % (k, i, k, i))
        for x in es:
            y = build(x["v"], [k] + around)
            lines.append("T[%d][%s]=%s" % (k, atom(x["k"]), y))
        if rng:
            for i in tmp:
                if not any(x["k"] == num(i) for x in es):
                    lines.append("T[%d][%d]=nil" % (k, i))
                if not any(x["k"] == string(b"#%d" % i) for x in es):
                    lines.append("T[%d]['#%d']=nil" % (k, i))
        memo[key] = k
        return "T[%d]" % k

    r = build(v, [])
    return "function() local T={} %s return %s end" % ("\n".join(lines), r)


def cyclic(v):
    return v["t"] == "up" or v["t"] == "tab" and any(cyclic(x["v"]) for x in v["e"])


def shown_size(v, d, around=(), limit=3000):
    """Number of values shown, not counted beyond limit."""
    if v["t"] == "up":
        return shown_size(around[v["up"] - 1], d, around[v["up"]:], limit)
    if v["t"] != "tab" or d == 1:
        return 1
    n = 1
    for x in v["e"]:
        n += shown_size(x["v"], d - 1 if d else 0, (v,) + around, limit - n)
        if n >= limit:
            break
    return n


def source(cases, rng):
    s = []
    for c in cases:
        runs = ",".join("{%d,%s}" % (d, "true" if i else "false") for d, i in c["shown"])
        s.append("{%s,%s,{%s}}" % (builder(c["v"]), builder(c["v"], rng), runs))
    return "return {\n" + ",\n".join(s) + "}\n"


def observe(so, cases, text):
    d = tempfile.mkdtemp(prefix="val.")
    try:
        with open(os.path.join(d, "cases.lua"), "w") as f:
            f.write(text)
        r = proc.run(["lua5.2", DRIVER, "cases.lua", "res"], cwd=d, env={"MEWA_SO_DIR": so}, timeout=120)
        obs = []
        p = os.path.join(d, "res")
        if os.path.exists(p):
            with open(p) as f:
                obs = [json.loads(line) for line in f if line.endswith("\n")]
        if r.rc != 0 or r.timed_out or len(obs) != len(cases):
            return "mewa.tostring %s" % ("does not end" if r.timed_out else "ended with status %d %r" % (r.rc, r.err[-300:]))
        for c, o in zip(cases, obs):
            c["runs"] = o
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


CFG = 'SPECIFICATION Spec\nCONSTANTS Mode = "check"\n MaxEntries = 0\nCHECK_DEADLOCK FALSE\n'


def check_spec(cases, workers=8):
    d = tempfile.mkdtemp(prefix="vals.")
    try:
        p = os.path.join(d, "cases.json")
        with open(p, "w") as f:
            json.dump([{"id": k, "v": c["v"], "runs": [{x: y for x, y in o.items() if x != "text"} for o in c["runs"]]} for k, c in enumerate(cases)], f)
        r = tlc.run("LuaValue", env={"CASES": p}, workers=workers, timeout=600, mem="8g", cfg_text=CFG)
        recs = []
        for line in r.out.splitlines():
            m = re.match(r'"(MISMATCH|DONE) (.*)"$', line)
            if m:
                recs.append((m.group(1), json.loads(json.loads('"' + m.group(2) + '"'))))
        if not r.ok:
            raise RuntimeError("TLC failed on LuaValue:\n" + r.tail())
        if {x["case"] for k, x in recs if k == "DONE"} != set(range(len(cases))):
            raise RuntimeError("LuaValue did not finish all cases:\n" + r.tail())
        return r, recs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def conforms(so, case, rng):
    fail = observe(so, [case], source([case], rng))
    if fail:
        return fail, None
    _, recs = check_spec([case], workers=1)
    for k, x in recs:
        if k == "MISMATCH":
            return x["what"] + ": " + json.dumps(x["detail"])[:400], x["run"]
    return None, None


def check_cases(ctx, so, cases, what, batch=2500):
    for b in range(0, len(cases), batch):
        part = cases[b:b + batch]
        chunks = [part[k::8] for k in range(8) if part[k::8]]
        texts = [source(c, ctx.rng) for c in chunks]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            fails = list(ex.map(lambda x: observe(so, *x), zip(chunks, texts)))
        suspects, good = [], []
        for ch, f in zip(chunks, fails):
            if f:
                suspects += ch
            else:
                good += ch
        if good:
            r, recs = check_spec(good)
            ctx.tlc(r)
            seen = set()
            for k, x in recs:
                if k == "MISMATCH" and x["case"] not in seen:
                    seen.add(x["case"])
                    suspects.append(good[x["case"]])
        ctx.traces += len(good)
        ctx.events += sum(len(c["runs"]) for c in good)
        ctx.count("values", len(good))
        for c in good[:1]:
            ctx.sample({"kind": what, "text": bytes(c["runs"][0]["text"]).decode("latin1")[:400]})
        for c in suspects:
            for _ in range(3):  # the second build order is random
                again, run = conforms(so, c, ctx.rng)
                if again:
                    break
            if again is None:
                ctx.count("unconfirmed")
                continue
            o = c["runs"][run - 1] if run else {}
            ctx.violation("%s: %s" % (what, again), "-- %s\n-- depth %s indent %s\n-- text %r\nreturn %s\n" %
                          (again.replace("\n", " "), o.get("d"), o.get("indent"), bytes(o.get("text", [])), builder(c["v"])))
            if ctx.full():
                return


def model_values(ctx, entries):
    """All values of the model up to a number of entries."""
    cfg = 'SPECIFICATION Spec\nCONSTANTS Mode = "model"\n MaxEntries = %d\nINVARIANTS Coarser Complete Bounded Marked Dump\nCHECK_DEADLOCK FALSE\n' % entries
    r = tlc.run("LuaValue", env={"DUMP": "1"}, workers=8, timeout=800, mem="8g", cfg_text=cfg)
    if not r.ok:
        raise RuntimeError("TLC failed on LuaValue:\n" + r.tail())
    ctx.tlc(r)
    ctx.note("all values of %d entries of the model: %d" % (entries, r.distinct))
    out = []
    for line in r.out.splitlines():
        m = re.match(r'"VALUE (.*)"$', line)
        if m:
            out.append(json.loads(json.loads('"' + m.group(1) + '"')))
    return out


WORDS = [b"", b"a", b"_", b"A9", b"end", b"nil", b"and", b"not", b"goto", b"1", b"9a", b"a b", b"a-b", b"\xc3\xa4", b"\xff", b"\0", b"\\", b'"', b"'",
         b"]]", b"\n", b"\t", b"\r", b"\b", b"\x7f", b"\x1b1", b"%s", b"x" * 300, b"_end", b"End", b"false"]


def random_bytes(rng):
    x = rng.random()
    if x < 0.5:
        return rng.choice(WORDS)
    if x < 0.6:
        return b"".join(rng.choice(WORDS) for _ in range(rng.randint(2, 4)))
    return bytes(rng.choice([rng.randrange(256), rng.randrange(32), rng.choice(b'09azAF"\\')]) for _ in range(rng.randint(1, 12)))


def random_number(rng, key=False):
    x = rng.random()
    if x < 0.35:
        return rng.randint(-3, 12)
    if x < 0.5:
        e = rng.choice([15, 16, 31, 32, 52, 10])
        return rng.choice([-1, 1]) * (2 ** e + rng.randint(-2, 2))
    if x < 0.85:
        # at most 14 significant digits
        return float("%d.%de%d" % (rng.choice([0, 1, -1, rng.randint(-99999, 99999)]), rng.randint(0, 10 ** rng.randint(1, 8)), rng.choice([0, 0, 0, 3, -3, 20, -20, 290, -300])))
    if x < 0.92:
        return rng.choice([1e300, -1e15, 9e14, 1e16, 1e-5, 1e5, 123456.5, 1e21, 4503599627370496.0, 0.5, 1e-300])
    return rng.choice([float("inf"), float("-inf")] + ([] if key else [float("nan")]))


def random_key(rng):
    return num(random_number(rng, True)) if rng.random() < 0.5 else string(random_bytes(rng))


def random_value(rng, depth, lev=0):
    x = rng.random()
    if lev and (depth <= 0 or x < 0.45):
        y = rng.random()
        if y < 0.15:
            return {"t": "bool", "b": rng.random() < 0.5}
        return num(random_number(rng)) if y < 0.5 else string(random_bytes(rng))
    n = rng.choice([0, 1, 2, 3, 4, 6, 9]) if rng.random() < 0.97 else rng.randint(10, 60)
    kind = rng.random()
    if kind < 0.35:
        keys = [num(i) for i in range(1, n + 1)]
        if rng.random() < 0.3 and n > 1:
            keys.pop(rng.randrange(n))
        if rng.random() < 0.2:
            keys += [random_key(rng)]
    else:
        keys = [random_key(rng) for _ in range(n)]
    es, seen = [], set()
    for k in keys:
        if json.dumps(k) not in seen:
            seen.add(json.dumps(k))
            es.append({"k": k, "v": random_value(rng, depth - 1, lev + 1)})
    return {"t": "tab", "e": es}


def with_cycles(rng, v, lev=0):
    if v["t"] != "tab":
        return {"t": "up", "up": rng.randint(1, lev)} if lev and rng.random() < 0.15 else v
    return {"t": "tab", "e": [{"k": x["k"], "v": with_cycles(rng, x["v"], lev + 1)} for x in v["e"]]}
