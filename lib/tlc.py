"""Runs TLC on the specifications in /verif/spec and interprets what it says."""
import os, re, shutil, subprocess, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"


def _classpath():
    jars = [JAR]
    d = os.path.dirname(JAR)
    for f in sorted(os.listdir(d)):
        if f.endswith(".jar") and os.path.join(d, f) not in jars:
            jars.append(os.path.join(d, f))
    return ":".join(jars)


class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.violated = bool(re.search(r"(Invariant|Temporal properties|Postcondition|POSTCONDITION|Action property|The invariant)\b.*(violated|is false)"
                                       r"|is violated|was violated|evaluated to FALSE|Assumption .* is false", out))
        self.ok = rc == 0 and "No error has been found" in out

    def tail(self, n=3000):
        return self.out[-n:]


def run(module, cfg=None, workers=1, env=None, timeout=800, args=(), mem="3g", spec_dir=SPEC, cfg_text=None):
    """module: name of the .tla file in /verif/spec without extension."""
    meta = tempfile.mkdtemp(prefix="tlc.")
    cfg_path = (cfg or module) + ".cfg"
    if cfg_text is not None:
        cfg_path = os.path.join(meta, "check.cfg")
        with open(cfg_path, "w") as f:
            f.write(cfg_text)
    cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC" if workers != 1 else "-XX:+UseSerialGC",
           "-XX:TieredStopAtLevel=4", "-cp", _classpath(), "tlc2.TLC", "-noGenerateSpecTE", "-lncheck", "final",
           "-metadir", meta, "-workers", str(workers), "-config", cfg_path, *args, module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=spec_dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, errors="replace")
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        rc, out = 124, (x.stdout.decode("utf8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or "")) + "\nTIMEOUT"
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(rc, out, time.time() - t0)
