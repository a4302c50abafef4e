"""Conformance of the real type database with spec/TypeDb.tla."""
import json, os, re, shutil, tempfile, time

import proc, tdbgen, tlc
from ctx import HERE

DRIVER = os.path.join(HERE, "driver", "typedb.lua")


def drive(so, ops, timeout=60):
    """Runs the operations on the real module: (events, failure text or None)."""
    d = tempfile.mkdtemp(prefix="tdb.")
    try:
        with open(os.path.join(d, "ops"), "w") as f:
            f.write(tdbgen.ops_text(ops))
        r = proc.run(["lua5.2", DRIVER, "ops", "trace"], cwd=d, env={"MEWA_SO_DIR": so}, timeout=timeout)
        events = []
        p = os.path.join(d, "trace")
        if os.path.exists(p):
            with open(p, errors="replace") as f:
                for line in f:
                    if not line.endswith("\n"):
                        break
                    events.append(json.loads(line))
        if r.timed_out:
            return events, "does not end"
        if r.rc < 0 or r.rc >= 128 or r.rc != 0 and b"typedb.lua" not in r.err:
            return events, "ended with status %d: %s" % (r.rc, r.err.decode("utf8", "replace")[-500:])
        if r.rc != 0:
            return events, "driver failed: %s" % r.err.decode("utf8", "replace")[-800:]
        return events, None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def validate(events, timeout=600):
    """(TlcResult, index of the first event that is not allowed or None)"""
    d = tempfile.mkdtemp(prefix="tdbv.")
    try:
        p = os.path.join(d, "trace.ndjson")
        with open(p, "w") as f:
            for e in events:
                f.write(json.dumps(e) + "\n")
        r = tlc.run("TraceTypeDb", env={"TRACE": p}, timeout=timeout, mem="4g")
        if r.ok:
            return r, None
        if "TraceAccepted" in r.out and r.depth > 0:
            return r, r.depth - 1
        raise RuntimeError("TLC failed on a type database trace:\n" + r.tail())
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _histories(ops):
    """Splits a list of operations into histories (a history starts with the first 'new' of database 1)."""
    res = []
    for o in ops:
        if o["op"] == "new" and o.get("db", 1) == 1:
            res.append([])
        res[-1].append(o)
    return res


def _check(so, ops):
    """Runs and validates: (events, tlc result list, None or (op index, text))"""
    events, fail = drive(so, ops)
    real = [k for k, o in enumerate(ops) if o["op"] != "gc"]
    rs = []
    if fail:
        k = real[len(events)] if len(events) < len(real) else len(ops) - 1
        return events, rs, (k, "%s at %s" % (fail, tdbgen.lua(ops[k])))
    dbs = sorted({e["db"] for e in events})
    worst = None
    for db in dbs:
        idx = [k for k, e in enumerate(events) if e["db"] == db]
        r, bad = validate([events[k] for k in idx])
        rs.append(r)
        if bad is not None:
            k = idx[bad]
            if worst is None or real[k] < worst[0]:
                worst = (real[k], "not a behaviour of the specification: %s" % json.dumps(events[k]))
    return events, rs, worst


def _shrink(so, ops, text, budget=14):
    """Removes operations as long as the last one is still rejected (never the 'new's)."""
    end = time.time() + 90
    chunk = max(1, len(ops) // 2)
    while chunk >= 1 and budget > 0 and time.time() < end and "does not end" not in text:
        k = 1
        changed = False
        while k < len(ops) - 1 and budget > 0 and time.time() < end:
            cand = ops[:k] + [o for o in ops[k:min(k + chunk, len(ops) - 1)] if o["op"] == "new"] + ops[min(k + chunk, len(ops) - 1):]
            if len(cand) < len(ops):
                budget -= 1
                try:
                    _, _, bad = _check(so, cand)
                except Exception:
                    bad = None
                if bad is not None and bad[0] == len(cand) - 1:
                    ops, text, changed = cand, bad[1], True
                    continue
            k += chunk
        if not changed or chunk == 1:
            chunk //= 2
    return ops, text


def check_ops(ctx, so, ops, what):
    """Drives the operations, validates the recorded events and reports violations. Returns the events."""
    events, rs, bad = _check(so, ops)
    for r in rs:
        ctx.tlc(r)
    hs = _histories(ops)
    ctx.traces += len(hs)
    ctx.events += len(events)
    if events:
        ctx.sample({"history": [tdbgen.lua(o) for o in hs[0][:12]], "of": len(hs[0]), "kind": what,
                    "last_event": events[min(len(hs[0]), len(events)) - 1]})
    if bad is not None:
        # isolate the history, confirm by running it again
        k = bad[0]
        pos = 0
        for h in hs:
            if pos + len(h) > k:
                break
            pos += len(h)
        h = h[:k - pos + 1]
        _, _, again = _check(so, h)
        if again is None:       # depends on what ran before: keep everything up to the failing operation
            h = ops[:k + 1]
            _, _, again = _check(so, h)
        if again is None:
            ctx.log("rejection not reproduced, ignored:", bad[1])
            ctx.count("unconfirmed")
            return events
        h = h[:again[0] + 1]
        small, text = _shrink(so, h, again[1])
        ctx.violation("%s: %s" % (what, text),
                      "# driver/typedb.lua operations; the last one is answered against spec/TypeDb.tla: %s\n" % text.replace("\n", " ")
                      + tdbgen.ops_text(small), ".ops")
    return events


def model(ctx, so, kind, depth, maxpoint, nscopes, limit=None, timeout=600):
    """Checks TypeDbHist exhaustively for the given constants and returns the histories it printed."""
    cfg = open(os.path.join(tlc.SPEC, "TypeDbHist.cfg")).read()
    cfg = re.sub(r"CONSTANTS.*", 'CONSTANTS Kind = "%s" Depth = %d MaxPoint = %d NumScopes = %d' % (kind, depth, maxpoint, nscopes), cfg)
    r = tlc.run("TypeDbHist", cfg_text=cfg, workers=8, timeout=timeout)
    ctx.tlc(r)
    if not r.ok:
        raise RuntimeError("model checking TypeDbHist failed:\n" + r.tail())
    ctx.log("TypeDbHist %s depth=%d points=%d scopes=%d: %d states" % (kind, depth, maxpoint, nscopes, r.distinct))
    ctx.note("TypeDbHist Kind=%s Depth=%d MaxPoint=%d NumScopes=%d: %d distinct states, all histories" % (kind, depth, maxpoint, nscopes, r.distinct))
    hs = []
    for line in r.out.splitlines():
        if line.startswith('"HIST '):
            hs.append(json.loads(json.loads(line)[5:]))
    hs.sort(key=lambda h: json.dumps(h))
    ctx.count("model_histories", len(hs))
    if limit and len(hs) > limit:
        hs = ctx.rng.sample(hs, limit)
    ctx.count("model_histories_replayed", len(hs))
    return hs


def replay_ops(h, kind):
    """Turns a history of the model into operations with every query after every update."""
    ops = [{"op": "new"}]
    fam = sorted((f["s"], f["e"]) for f in h["fam"])
    pts = sorted({p for f in fam for p in f if p < tdbgen.MAXSTEP} | {0})
    steps = sorted({max(0, p + d) for p in pts for d in (-1, 0)} | {max(pts) + 1})
    ntypes = {"inst": 0, "type": 1, "redu": 3, "graph": 3}[kind]
    for k in range(ntypes):
        ops.append({"op": "def_type", "ctx": 0, "name": "abcd"[k], "ctor": "", "pars": [], "nopars": True})
    for n, o in enumerate(h["hist"]):
        ops.append({"op": "scope", "s": o["sc"]["s"], "e": o["sc"]["e"], "step": -1})
        val = "n:%d" % (n + 1)
        if o["k"] == "set_instance":
            ops.append({"op": "set_instance", "name": o["name"], "v": val})
        elif o["k"] == "def_type":
            ops.append({"op": "def_type", "ctx": 0, "name": o["name"], "ctor": val,
                        "pars": [{"t": {"ref": p}, "c": "", "form": 0} for p in o["pars"]], "nopars": True})
        elif o["k"] == "def_type_as":
            ops.append({"op": "def_type_as", "ctx": 0, "name": o["name"], "t": {"ref": o["t"]}})
        else:
            ops.append({"op": "def_reduction", "to": {"ref": o["to"]}, "from": {"ref": o["from"]}, "ctor": val,
                        "tag": o["tag"], "w": o["w"]})
        if kind == "graph" and n < len(h["hist"]) - 1:
            continue
        if kind in ("inst", "type"):
            for s, e in fam:
                ops.append({"op": "scope", "s": s, "e": e, "step": -1})
                if kind == "inst":
                    ops.append({"op": "this_instance", "name": "a"})
                else:
                    ops.append({"op": "this_type", "ctx": 0, "name": "x", "pars": [], "nopars": True})
                    ops.append({"op": "this_type", "ctx": 0, "name": "x", "pars": [{"ref": 1}]})
                    ops.append({"op": "this_types", "ctx": 0, "name": "x"})
        for st in steps if kind != "graph" else steps[:1]:
            ops.append({"op": "step", "step": st})
            if kind == "inst":
                ops.append({"op": "get_instance", "name": "a"})
            elif kind == "type":
                ops.append({"op": "resolve_type", "ctxs": [{"t": 0, "c": "", "pair": False}], "list": False, "name": "x", "all": True, "tags": []})
            elif kind == "redu":
                for to in (2, 3):
                    for m in ([1], [2], [1, 2]):
                        ops.append({"op": "get_reduction", "to": {"ref": to}, "from": {"ref": 1}, "all": False, "tags": m})
                ops.append({"op": "get_reductions", "from": {"ref": 1}, "all": True, "tags": [], "ctags": [2]})
            else:
                for a in (1, 2, 3):
                    for b in (1, 2, 3):
                        if a != b:
                            for m, cm, mx in (([1, 2], [], 1), ([1, 2], [2], 0), ([1, 2], [1, 2], 1), ([1], [1], -1)):
                                ops.append({"op": "derive_type", "to": {"ref": b}, "from": {"ref": a}, "all": False, "tags": m,
                                            "ctags": cm, "max": mx})
                    for name in "ab":
                        ops.append({"op": "resolve_type", "ctxs": [{"t": {"ref": a}, "c": "", "pair": False}], "list": False,
                                    "name": name, "all": True, "tags": []})
        tree = {"inst": {"op": "instance_tree", "name": "a"}, "type": {"op": "type_tree"}}.get(kind, {"op": "reduction_tree"})
        ops.append(tree)
    return ops


def model_conformance(ctx, so, kind, depth, maxpoint, nscopes, limit=None, batch=1500):
    hs = model(ctx, so, kind, depth, maxpoint, nscopes, limit)
    for k in range(0, len(hs), batch):
        ops = []
        for h in hs[k:k + batch]:
            ops += replay_ops(h, kind)
        check_ops(ctx, so, ops, "history of the model (%s)" % kind)
        if ctx.full():
            return


def random_conformance(ctx, so, mix, count, what, batch=250, **opts):
    done = 0
    while done < count and not ctx.full():
        ops = []
        k = min(batch, count - done)
        for _ in range(k):
            o = {n: (v(ctx.rng) if callable(v) else v) for n, v in opts.items()}
            ops += tdbgen.Gen(ctx.rng, mix, **o).history()
        check_ops(ctx, so, ops, what)
        done += k


def interleaved(rng, mixes, length, dbs):
    """Histories of several databases that are alive at once, interleaved at random."""
    seqs = []
    for d in range(1, dbs + 1):
        g = tdbgen.Gen(rng, mixes, length=length, db=d)
        seqs.append(g.history())
    ops = [s.pop(0) for s in seqs]
    while any(seqs):
        s = rng.choice([x for x in seqs if x])
        for _ in range(rng.randint(1, 3)):
            if s:
                ops.append(s.pop(0))
        if rng.random() < 0.02:
            ops.append({"op": "gc"})
    return ops
