"""Bookkeeping of one check run: counts, samples, violations, the evidence file and the exit status."""
import json, os, random, sys, threading, time

import proc

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.assumptions, self.extra = [], [], [], {}
        self.violations, self.known = [], []
        self.quick = tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def tlc(self, r):
        """Counts the states of a TLC run."""
        self.states += r.distinct
        self.transitions += r.generated

    def sample(self, x):
        if len(self.samples) < 5:
            self.samples.append(x)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def count(self, key, k=1):
        self.extra[key] = self.extra.get(key, 0) + k

    def replay_path(self, suffix):
        d = os.path.join(HERE, "replay")
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, "%s-%s-%d-%d%s" % (self.prop, self.tier, self.seed, len(self.violations), suffix))

    def violation(self, text, replay, suffix=".txt"):
        """Records a violation; `replay` is the text of the replay file."""
        p = self.replay_path(suffix)
        with open(p, "w", errors="surrogateescape") as f:
            f.write(replay)
        self.violations.append(text)
        print("violation:", text, flush=True)
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)

    def known_finding(self, key):
        """Prints the KNOWN-FINDING line of an entry of known_findings.txt; a violation if there is no such entry."""
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                if line.startswith("known: property=%s %s " % (self.prop, key)):
                    self.known.append(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, line.split(" ", 2)[2].strip()), flush=True)
                    return True
        return False

    def full(self):
        """enough violations reported: three, or one that took long to find"""
        return len(self.violations) >= 3 or self.violations and self.late()

    def late(self):
        return time.time() - self.t0 > (200 if self.quick else 2000)

    def watch(self):
        """Ends a check that has violations and takes long."""
        def end():
            while True:
                time.sleep(3)
                if self.violations and self.late():
                    time.sleep(5)
                    rc = self.finish()
                    proc.kill_all()
                    sys.stdout.flush()
                    os._exit(rc)
        threading.Thread(target=end, daemon=True).start()

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_validated": self.events,
               "samples": self.samples, "notes": self.notes, **self.extra}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        self.log("states=%d transitions=%d traces=%d events=%d violations=%d" %
                 (self.states, self.transitions, self.traces, self.events, len(self.violations)))
        return 1 if self.violations else 0
