"""Conformance of mewa.llvm_float_tohex and llvm_double_tohex with spec/Ieee.tla."""
import json, math, os, re, shutil, struct, tempfile

import proc, tlc
from ctx import HERE

DRIVER = os.path.join(HERE, "driver", "float.lua")


def number(bits):
    return struct.unpack(">d", struct.pack(">Q", bits))[0]


def bits_of(text):
    return [int(c) for c in format(int(text, 16), "064b")] if re.fullmatch(r"[0-9A-Fa-f]{1,16}", text) else []


def random_bits(rng):
    """Numbers at the borders: of both formats, of rounding, simple decimals and any bits."""
    kind = rng.random()
    if kind < 0.15:
        return rng.getrandbits(64)
    if kind < 0.3:
        return struct.unpack(">Q", struct.pack(">d", rng.choice([1, -1]) * rng.choice([rng.randint(0, 1000), rng.random(), round(rng.uniform(0, 100), 2), 10.0 ** rng.randint(-320, 308)])))[0]
    exp = rng.choice([rng.randint(1023 - 151, 1023 - 125), rng.randint(1023 + 125, 1023 + 129), rng.randint(1023 - 5, 1023 + 30), rng.randint(0, 2047), 0, 2046, 2047])
    pos = rng.choice([29, 29, 28, max(0, min(52, 29 + 1023 - 126 - exp))])   # last place of the float
    top = rng.choice([0, (1 << (52 - pos)) - 1, rng.getrandbits(52 - pos) if pos < 52 else 0, 1 if pos < 52 else 0])
    half = 1 << (pos - 1) if pos else 0
    low = rng.choice([0, half, half, max(half - 1, 0), half + 1, (1 << pos) - 1, 1, rng.getrandbits(pos) if pos else 0])
    return rng.getrandbits(1) << 63 | exp << 52 | ((top << pos) + low) & ((1 << 52) - 1)


def observe(so, numbers):
    d = tempfile.mkdtemp(prefix="float.")
    try:
        with open(os.path.join(d, "in"), "w") as f:
            f.write("".join(x.hex() + "\n" for x in numbers))
        r = proc.run(["lua5.2", DRIVER, "in", "res"], cwd=d, env={"MEWA_SO_DIR": so}, timeout=60)
        if r.rc != 0:
            return None, "driver ended with status %d: %s" % (r.rc, r.err.decode("utf8", "replace")[-300:])
        with open(os.path.join(d, "res")) as f:
            rows = [x.split() for x in f]
        for x, row in zip(numbers, rows):
            if not (math.isnan(x) or float.fromhex(row[0]) == x):
                raise RuntimeError("Lua reads %s as %s" % (x.hex(), row[0]))
        return rows, None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_spec(cases):
    d = tempfile.mkdtemp(prefix="float.")
    try:
        p = os.path.join(d, "cases.json")
        with open(p, "w") as f:
            json.dump(cases, f)
        r = tlc.run("Ieee", env={"CASES": p}, workers=1, timeout=600)
        if not r.ok:
            raise RuntimeError("TLC failed on Ieee:\n" + r.tail())
        recs = [(m.group(1), json.loads(json.loads('"' + m.group(2) + '"'))) for m in (re.match(r'"(MISMATCH|DONE) (.*)"$', x) for x in r.out.splitlines()) if m]
        if {x["case"] for k, x in recs if k == "DONE"} != set(range(len(cases))):
            raise RuntimeError("Ieee did not finish all cases:\n" + r.tail())
        return r, [x for k, x in recs if k == "MISMATCH"]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_numbers(ctx, so, numbers):
    def judge(xs):
        rows, fail = observe(so, xs)
        if fail:
            return None, [{"case": 0, "what": fail, "want": []}], rows
        cases = [{"b": [int(c) for c in format(struct.unpack(">Q", struct.pack(">d", x))[0], "064b")], "f": bits_of(row[1]), "d": bits_of(row[2])} for x, row in zip(xs, rows)]
        return check_spec(cases) + (rows,)

    r, bad, rows = judge(numbers)
    if r:
        ctx.tlc(r)
    ctx.traces += len(numbers)
    ctx.events += 2 * len(numbers)
    if rows:
        ctx.sample({"kind": "number", "number": numbers[-1].hex(), "observed": rows[-1]})
    for x in bad:
        v = numbers[x["case"]]
        _, again, row = judge([v])
        if again:
            want = "".join(map(str, x["want"]))
            text = "%s of %s (%r): got %s, expected %s" % (x["what"], v.hex(), v, row[0][1:] if row else "nothing", "%X" % int(want, 2) if want else "")
            ctx.violation(text, text + "\n", ".txt")
            return
