"""Evidence, replay files and known findings."""
import json
import os
import time

from . import env

EVID = os.path.join(env.VERIF, "evidence")
REPLAYS = os.path.join(env.VERIF, "replays")
KNOWN = os.path.join(env.VERIF, "known_findings.txt")


class Violation(Exception):
    """The property is broken. `sig` identifies the failing input or call site."""

    def __init__(self, msg, sig=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.sig = sig or ""


def known_findings(prop):
    """signature -> description, for the findings of this property.
    Lines: `known: property=C01 sig=<signature> <what fails>`;
    lines starting with `fixed:` suppress nothing."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            parts = line[len("known:"):].strip().split(None, 2)
            kv = dict(p.split("=", 1) for p in parts[:2])
            if kv.get("property") == prop:
                out[kv["sig"]] = parts[2] if len(parts) > 2 else ""
    return out


class Report(object):
    def __init__(self, prop, level):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.violations = []
        self.known_hit = {}
        self.known = known_findings(prop)
        self.cov = {}
        self.parts = []
        self.samples = []
        self.assumptions = []
        self.exhaustive = True

    def remaining(self):
        """seconds left of what one check may use in total"""
        return max(5.0, 720.0 - (time.time() - self.t0))

    def add_part(self, **kw):
        self.parts.append(kw)

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, v, payload):
        """record one violation; returns True if it is a new (unlisted) one"""
        sig = getattr(v, "sig", "") or ""
        if sig in self.known:
            self.known_hit[sig] = self.known[sig]
            return False
        self.violations.append((str(getattr(v, "msg", v)), sig, payload))
        return True

    def finish(self):
        import hashlib
        os.makedirs(EVID, exist_ok=True)
        os.makedirs(REPLAYS, exist_ok=True)
        cov = dict(self.cov)
        cov["parts"] = self.parts
        cov["samples"] = self.samples
        cov["exhaustive"] = bool(self.exhaustive)
        ev = {"property": self.prop, "tier": env.TIER if env.TIER in ("quick", "thorough") else "quick",
              "seed": env.SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 3),
              "violations": len(self.violations)}
        tmp = os.path.join(EVID, self.prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(EVID, self.prop + ".json"))
        for sig, desc in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.prop, desc, sig))
        shown = 0
        for msg, sig, payload in self.violations:
            body = {"property": self.prop, "message": msg, "sig": sig, "replay": payload}
            blob = json.dumps(body, indent=1, default=str, sort_keys=True)
            name = "%s-%s.json" % (self.prop, hashlib.sha1(blob.encode()).hexdigest()[:10])
            path = os.path.join(REPLAYS, name)
            with open(path, "w") as f:
                f.write(blob)
            if shown < 5:
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  " + msg.replace("\n", "\n  ")[:2000])
                if sig:
                    print("  sig=" + sig)
                shown += 1
        tot = {k: v for k, v in self.cov.items() if isinstance(v, int)}
        print("%s %s: %s in %.1f s, %d violation(s)%s" % (
            self.prop, env.TIER, ", ".join("%s=%s" % kv for kv in sorted(tot.items())),
            time.time() - self.t0, len(self.violations), "" if self.exhaustive else " (capped)"))
        return 1 if self.violations else 0
