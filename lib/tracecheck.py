"""Conformance of mewa.stacktrace with spec/StackTrace.tla."""
import concurrent.futures, json, os, re, shutil, tempfile

import proc, tlc
from mewabuild import LUA_BIN

CFG = 'SPECIFICATION Spec\nCONSTANTS Mode = "%s"\n MaxOps = %d\nCHECK_DEADLOCK FALSE\n'
LETTERS = "qzxvwjybgQZ0123456789"

# The body of all functions: what they do is told by the operations of the history. The functions of the
# driver return before anything else is called.
BODY = """%slocal op = NEXT()
%swhile op.op ~= "return" do
%s	if op.op == "call" then FUNS[ op.f]()
%s	elseif op.op == "pcall" then if op.co then coroutine.wrap( FUNS[ op.f])() else pcall( FUNS[ op.f]) end
%s	else RECORD( op, pcall_trace( op)) end
%s	op = NEXT()
%send
"""
MAIN = """package.cpath = "%s/?.so"
local mewa = require("mewa")
local ops = dofile( "ops.lua")
local pos = 0
local results = {}
FUNS = {}
function NEXT()
	pos = pos + 1
	return ops[ pos] or {op="return"}
end
function RECORD( op, trace)
	results[ #results+1] = {id=pos, trace=trace}
end
TRACE = mewa.stacktrace
%s
local op = NEXT()
while op.op ~= "return" do
	if op.op == "call" then FUNS[ op.f]()
	elseif op.op == "pcall" then if op.co then coroutine.wrap( FUNS[ op.f])() else pcall( FUNS[ op.f]) end
	else RECORD( op, TRACE( table.unpack( op.args, 1, op.nargs))) end
	op = NEXT()
end
local out = io.open( "result", "wb")
local function text( s) return (string.gsub( tostring(s), ".", function(c) return string.format( "%%02x", c:byte()) end)) end
for _,r in ipairs( results) do
	out:write( "trace ", r.id, " ", #r.trace, "\\n")
	for _,e in ipairs( r.trace) do
		out:write( "elem ", e.line or 0, " x", text( e.file), " x", text( e["function"] or ""), "\\n")
	end
end
out:write( "end\\n")
out:close()
"""


def body(indent):
    return (BODY % ((indent,) * 7)).replace("pcall_trace( op)", "TRACE( table.unpack( op.args, 1, op.nargs))")


def make_files(rng):
    """Files with functions: texts by name, list of functions, Lua text that loads them"""
    files, funs, load, tables = {}, [], [], set()
    for k in range(rng.randint(1, 4)):
        x = rng.random()
        name = "f%d.lua" % k if x < 0.5 else "d%d/%s.lua" % (k, "n" * rng.randint(20, 120)) if x < 0.8 else "./a b%d.lua" % k
        intext = rng.random() < 0.15
        lines = []
        for _ in range(rng.randint(1, 5)):
            for _ in range(rng.choice([0, 0, 1, 3, 300] if rng.random() < 0.1 else [0, 0, 1, 3])):
                lines.append(rng.choice(["", "-- comment (x)", "  ", "local qq_ = 1", "-- function zz()"]))
            fn = "".join(rng.choice(LETTERS) for _ in range(rng.randint(1, 8)))
            fn = rng.choice("qzxvw") + fn + "_%d" % len(funs)
            n = len(funs) + 1
            ind = rng.choice(["", "", "  ", "\t", " \t "])
            x = rng.random()
            kind = "fun"
            args = rng.choice(["", " a, b", "a", " ... "])
            if x < 0.6:
                if rng.random() < 0.4:
                    tables.add("vq")
                    fn = "vq" + rng.choice(".:") + fn
                head = "function %s%s(%s)" % (fn, rng.choice(["", "", " "]), args)
                ref = fn.replace(":", ".")
            elif x < 0.8:
                head, ref, kind = "local function %s(%s)" % (fn, args), fn, "part"
            else:
                head, ref, kind = "%s = function(%s)" % (fn, args), fn, "part"
            lines.append(ind + head)
            line = len(lines)
            lines += body(ind + "\t").rstrip("\n").split("\n")
            lines.append(ind + "end")
            lines.append("FUNS[ %d] = %s" % (n, ref))
            funs.append({"name": list(fn.encode()), "line": line, "file": list(name.encode()), "kind": kind})
            if intext:
                funs[-1].update(kind="text", name=[])
        text = "\n".join(lines) + rng.choice(["", "\n"])
        files[name] = text
        if intext:
            load.append('do local f = io.open( "%s") local t = f:read( "*a") f:close() assert( load( t%s))() end' % (name, rng.choice(["", ', "=chunk"', ', "vq text"'])))
        else:
            load.append('dofile( "%s")' % name)
    return files, funs, ["%s = {}" % t for t in tables] + load


def trace_op(rng, funs):
    ign = []
    if rng.random() < 0.5:
        for _ in range(rng.choice([0, 1, 1, 2, 5])):
            f = rng.choice(funs)["name"] or [113]
            i = rng.randrange(len(f))
            j = rng.choice([len(f), rng.randint(i + 1, len(f))])
            ign.append(f[i:j])
        if rng.random() < 0.03:
            ign.append([])
    depth = rng.choice([-1, -1, -1, 1, 1, 2, 3, 5, 100])
    return {"op": "trace", "depth": depth, "ignore": ign, "nil": rng.random() < 0.5}


class Case:
    def __init__(self, rng, length, calls=None):
        self.files, self.funs, self.load = make_files(rng)
        self.main = rng.choice(["main.lua", "./main.lua", "m" * 70 + "/main.lua"])
        self.mainfun = {"name": [], "line": 0, "file": list(self.main.encode()), "kind": "main"}
        self.ops = []
        if calls is None:
            calls, depth = [], 0
            p = rng.choice([0.5, 0.6, 0.8])
            while len(calls) < length:
                if rng.random() < p and depth < 150:
                    # calls through C count against a limit of Lua
                    calls.append("pcall" if rng.random() < 0.2 else "call")
                    depth += 1
                elif depth:
                    calls.append("return")
                    depth -= 1
        depth = cdepth = 0
        st = []
        for c in calls:
            if c == "pcall" and sum(st) > 40:
                c = "call"
            if c == "return":
                st.pop()
                self.ops.append({"op": c})
            else:
                st.append(c == "pcall")
                self.ops.append({"op": c, "f": rng.randint(1, len(self.funs)), "co": c == "pcall" and rng.random() < 0.4})
            if rng.random() < 0.4:
                self.ops.append(trace_op(rng, self.funs))
        self.ops += [trace_op(rng, self.funs)] + [{"op": "return"} for _ in st]

    def script(self):
        lines = []
        for op in self.ops:
            if op["op"] in ("call", "pcall"):
                lines.append('{op="%s",f=%d,co=%s}' % (op["op"], op["f"], str(op["co"]).lower()))
            elif op["op"] == "return":
                lines.append('{op="return"}')
            else:
                args = ["nil" if op["depth"] < 0 else str(op["depth"])]
                if op["ignore"] or not op["nil"]:
                    args.append("{" + ",".join('"%s"' % bytes(x).decode() for x in op["ignore"]) + "}")
                elif op["depth"] < 0:
                    args = []
                lines.append('{op="trace",nargs=%d,args={%s}}' % (len(args), ",".join(args)))
        return "return {\n" + ",\n".join(lines) + "\n}\n"

    def spec(self, i):
        ops = [dict(op, got=op.get("got", []), error=op.get("error", "")) if op["op"] == "trace" else op for op in self.ops]
        return {"id": i, "main": self.mainfun, "funs": self.funs, "ops": ops}

    def describe(self, so="BUILD"):
        return "".join("---- %s\n%s\n" % x for x in [(self.main, MAIN % (so, "\n".join(self.load))), ("ops.lua", self.script())] + list(self.files.items()))


def observe(so, c):
    d = tempfile.mkdtemp(prefix="trc.")
    try:
        for n, t in list(c.files.items()) + [("ops.lua", c.script()), (c.main, MAIN % (so, "\n".join(c.load)))]:
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(t)
        r = proc.run([LUA_BIN, c.main], cwd=d, timeout=60)
        if r.died:
            return "the program ended with %s" % ("the time limit" if r.timed_out else "status %d" % r.rc)
        p = os.path.join(d, "result")
        if not os.path.exists(p):
            return "mewa.stacktrace fails: " + r.err.decode("utf8", "replace")[:500]
        with open(p) as f:
            lines = f.read().split("\n")
        if "end" not in lines:
            return "the program did not end"
        cur = None
        for l in lines:
            w = l.split(" ")
            if w[0] == "trace":
                cur = c.ops[int(w[1]) - 1]
                cur["got"], cur["error"] = [], ""
            elif w[0] == "elem":
                cur["got"].append({"line": int(w[1]), "file": list(bytes.fromhex(w[2][1:])), "name": list(bytes.fromhex(w[3][1:]))})
        missing = [op for op in c.ops if op["op"] == "trace" and "got" not in op]
        return "mewa.stacktrace fails in a coroutine or protected call" if missing else None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_spec(cases):
    fd, p = tempfile.mkstemp(prefix="trc.", suffix=".ndjson")
    try:
        with os.fdopen(fd, "w") as f:
            for i, c in enumerate(cases):
                f.write(json.dumps(c.spec(i)) + "\n")
        r = tlc.run("StackTrace", env={"CASES": p}, workers=1, timeout=800, mem="3g", cfg_text=CFG % ("check", 0))
    finally:
        os.remove(p)
    done, bad = set(), {}
    for line in r.out.splitlines():
        m = re.match(r'"(DONE|MISMATCH) (.*)"$', line)
        if m:
            x = json.loads(json.loads('"' + m.group(2) + '"'))
            done.add(x["id"]) if m.group(1) == "DONE" else bad.setdefault(x["id"], x)
    if not r.ok or len(done) != len(cases):
        raise RuntimeError("TLC failed on StackTrace:\n" + r.tail())
    return bad, r


def conforms(so, c):
    fail = observe(so, c)
    if fail:
        return fail
    bad, _ = check_spec([c])
    if 0 in bad:
        op = c.ops[bad[0]["step"] - 1]
        return "%s, stacktrace( %s, {%s}) in operation %d returned %s" % (
            bad[0]["fault"], op["depth"], ",".join(bytes(x).decode() for x in op["ignore"]), bad[0]["step"],
            [(e["line"], bytes(e["file"]).decode("utf8", "replace"), bytes(e["name"]).decode("utf8", "replace")) for e in op["got"]][:20])
    return None


def check_cases(ctx, so, cases, what):
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fails = list(ex.map(lambda c: observe(so, c), cases))
    suspects = [c for c, f in zip(cases, fails) if f]
    good = [c for c, f in zip(cases, fails) if not f]
    parts = [good[k::8] for k in range(8) if good[k::8]]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for part, (bad, r) in zip(parts, ex.map(check_spec, parts)):
            ctx.tlc(r)
            suspects += [part[i] for i in sorted(bad)]
    ctx.traces += len(good)
    ctx.events += sum(len(c.ops) for c in good)
    ctx.count("stack traces compared", sum(op["op"] == "trace" for c in good for op in c.ops))
    for c in good[:1]:
        ctx.sample({"kind": what, "operations": c.ops[:12]})
    for c in suspects:
        again = conforms(so, c)
        if again is None:
            ctx.count("unconfirmed")
            continue
        ctx.violation("%s: %s" % (what, again), again + "\n" + c.describe(so))
        if ctx.full():
            return


def model_calls(ctx, n, limit):
    r = tlc.run("StackTrace", env={"DUMP": "1"}, workers=8, timeout=850, mem="6g", cfg_text=CFG % ("model", n) + "INVARIANTS Laws Dump\n")
    if not r.ok:
        raise RuntimeError("TLC failed on StackTrace:\n" + r.tail())
    ctx.tlc(r)
    out = sorted(m.group(1) for m in (re.match(r'"OPS (.*)"$', l) for l in r.out.splitlines()) if m)
    ctx.note("all histories of %d calls and returns of the model: %d, laws checked on %d states" % (n, len(out), r.distinct))
    # functions are drawn for each, what counts is the shape
    shapes = sorted({tuple(op["op"] for op in json.loads(json.loads('"' + x + '"'))) for x in out})
    return shapes if len(shapes) <= limit else ctx.rng.sample(shapes, limit)
