#!/usr/bin/env python3
"""check.py <property-id> [quick|thorough]: decide one property on the current source tree.

exit 0: the property held on everything analysed; exit 1 plus a VIOLATION line: it does not."""
import sys, os, json, time, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.setrecursionlimit(20000)


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.viols = {}
        self.cov = {}
        self.assume = []
        self._mod = {}

    def violation(self, key, where, msg, path=None):
        """key: stable identity (function + construct, no line numbers)"""
        v = self.viols.get(key)
        if v is None:
            self.viols[key] = dict(key=key, where=where, msg=msg, path=path or [])

    @property
    def mod(self):
        return self.module()

    def module(self):
        import frontend, ir
        if "m" not in self._mod:
            p = set(open(os.path.join(HERE, "engine", "primitives.txt")).read().split())
            self._mod["m"] = ir.Module(frontend.load(p))
        return self._mod["m"]

    @property
    def K(self):
        import flow
        if "K" not in self._mod:
            self._mod["K"] = flow.Kinds(self.mod)
        return self._mod["K"]

    @property
    def regs(self):
        import registry
        if "r" not in self._mod:
            r, bad = registry.build(self.mod, self.K)
            if bad:
                for b in bad:
                    self.violation("unresolved-registration:%s" % (b,), str(b), "native registration could not be resolved")
            self._mod["r"] = r
        return self._mod["r"]

    def also(self, other):
        """decides the rules of another property as well, as a part of this one (they imply each other partly)"""
        m = importlib.import_module("props.%s" % other)
        keep, self.cov = self.cov, {}
        try:
            m.run(self)
            self.cov, sub = keep, self.cov
        except Exception as e:
            self.cov, sub = keep, dict(not_decided_here=repr(e)[:200])
        self.cov["rules_of_" + other] = sub

    def require(self, n, minimum, what):
        """vacuity guard: the analysis found nothing (or far too little) to decide about"""
        if n < minimum:
            raise RuntimeError("vacuous: %s: found %d, expected at least %d" % (what, n, minimum))


def known(pid):
    r = {}
    fn = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                k, w = l.split(" key=", 1)[1].split(" :: ", 1)
                r[k.strip()] = w.strip()
    return r


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    ctx = Ctx(pid, tier)
    m = importlib.import_module("props.%s" % pid)
    m.run(ctx)
    kn = known(pid)
    new = [v for k, v in sorted(ctx.viols.items()) if k not in kn]
    old = [v for k, v in sorted(ctx.viols.items()) if k in kn]
    evd = os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    cov = dict(ctx.cov)
    cov.setdefault("explanation", (m.__doc__ or "").strip())
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=getattr(m, "LEVEL", "other"),
              coverage=cov, assumptions=ctx.assume + list(getattr(m, "ASSUME", [])), wall_s=round(time.time() - t0, 2), violations=len(new))
    if old:
        ev["coverage"]["known_findings"] = [v["key"] for v in old]
    with open(os.path.join(evd, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for v in old:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, kn[v["key"]], v["where"]))
    if new:
        rd = os.path.join(evd, "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + ".txt")
        with open(rp, "w") as f:
            for v in new:
                f.write("property %s\nwhere  %s\nkey    %s\nrule   %s\n" % (pid, v["where"], v["key"], v["msg"]))
                for s in v["path"]:
                    f.write("  via  %s\n" % s)
                f.write("\n")
        for v in new[:40]:
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("  %s: %s [%s]" % (v["where"], v["msg"][:300], v["key"][:200]))
        if len(new) > 40:
            print("  ... and %d more in %s" % (len(new) - 40, rp))
        return 1
    s = {k: v for k, v in cov.items() if isinstance(v, (int, float)) and not isinstance(v, bool)}
    print("OK property=%s %s (%.1fs)" % (pid, " ".join("%s=%s" % x for x in s.items()), time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        r = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        r = 3
    sys.stdout.flush()
    os._exit(r)
