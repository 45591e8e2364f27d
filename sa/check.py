#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property from /repo's current source."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(200000)
import threading
import resource


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obl = []          # dicts
        self.fns = {}
        self.stats = {"calls_resolved": 0, "calls_opaque": 0, "loops": 0, "events": 0, "blocks": 0}
        self._prog = None
        self.floors = []
        self.notes = []

    @property
    def prog(self):
        if self._prog is None:
            import prog
            self._prog = prog.Prog()
        return self._prog

    # ---- recording
    def record(self, key, ok, detail="", loc=""):
        self.obl.append({"key": key, "ok": bool(ok), "detail": str(detail)[:6000], "loc": loc})
        if os.environ.get("SA_VERBOSE"):
            print(("ok   " if ok else "FAIL ") + key + ("" if ok else f"  [{loc}] {str(detail)[:6000]}"))

    def case(self, key, loc=""):
        return Case(self, key, loc)

    def eq(self, key, got, want, care=None, loc="", axioms=()):
        import compare
        import vals as V
        d = compare.difference(got, want, V.T if care is None else care, "", axioms)
        self.record(key, d is None, d or "", loc)
        return d is None

    def true(self, key, cond, detail="", loc=""):
        self.record(key, cond, detail, loc)
        return cond

    def seen(self, body, I=None):
        p = self.prog
        self.fns[body["n"]] = p.loc(body)

    def took(self, I):
        for k, v in getattr(I, "stats", {}).items():
            if isinstance(v, int):
                self.stats[k] = self.stats.get(k, 0) + v
        self.stats["loops"] += len(I.loops)
        self.stats["events"] += len(I.events)
        self.stats["calls_opaque"] += sum(I.unknown.values()) if hasattr(I.unknown, "values") else len(I.unknown)

    def floor(self, n):
        """at least n obligations must have been examined"""
        if len(self.obl) < n:
            self.record("floor", False, f"only {len(self.obl)} obligations were formed, {n} were confirmed by hand")


class Case:
    """collects failures of one obligation; analysis errors count as failures (fail closed)"""

    def __init__(self, ctx, key, loc):
        self.ctx, self.key, self.loc = ctx, key, loc

    def __enter__(self):
        self.n = len(self.ctx.obl)
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            if len(self.ctx.obl) == self.n:
                self.ctx.record(self.key, True, "", self.loc)
            return False
        if issubclass(et, (KeyboardInterrupt, SystemExit)):
            return False
        if issubclass(et, Bad):
            self.ctx.record(self.key, False, str(ev), ev.loc or self.loc)
            return True
        last = traceback.extract_tb(tb)[-1]
        self.ctx.record(self.key, False, f"could not be established: {et.__name__}: {str(ev)[:600]} ({os.path.basename(last.filename)}:{last.lineno})", self.loc)
        if os.environ.get("SA_TRACE"):
            print("".join(traceback.format_exception(et, ev, tb)[-6:])[:3000])
        return True


class Bad(Exception):
    def __init__(self, msg, loc=""):
        super().__init__(msg)
        self.loc = loc


def known():
    out = []
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("finding:"):
                # finding: property=Cxx key=<key> | <what fails>
                head, _, what = l[len("finding:"):].partition("|")
                d = dict(x.split("=", 1) for x in head.split())
                out.append((d["property"], d["key"], what.strip()))
    return out


def run(pid, tier):
    t0 = time.time()
    ctx = Ctx(pid, tier)
    mod = importlib.import_module("props." + pid.lower())
    ctx.prog
    try:
        mod.run(ctx)
    except Exception as e:
        ctx.record("analysis", False, f"{type(e).__name__}: {str(e)[:500]}")
        if os.environ.get("SA_TRACE"):
            traceback.print_exc()
    if not ctx.obl:
        ctx.record("floor", False, "no obligation was formed")
    kn = {k: w for p, k, w in known() if p == pid}
    bad, found = [], []
    for o in ctx.obl:
        if not o["ok"]:
            if o["key"] in kn:
                found.append(o)
            else:
                bad.append(o)
    for o in found:
        print(f"KNOWN-FINDING: property={pid} {kn[o['key']]} [{o['key']}]")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rep = os.path.join(VERIF, "evidence", f"{pid}.report.json")
    json.dump({"property": pid, "violations": bad, "known": found}, open(rep, "w"), indent=1)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": getattr(mod, "LEVEL", "other"),
        "coverage": {
            "explanation": " ".join((mod.__doc__ or "").split()),
            "obligations": len(ctx.obl),
            "discharged": sum(o["ok"] for o in ctx.obl),
            "functions_analysed": dict(sorted(ctx.fns.items())),
            "functions": len(ctx.fns),
            "interpreter": ctx.stats,
            "crate_bodies": len(ctx.prog.bodies),
            "rules": sorted({o["key"].split("/")[0] for o in ctx.obl}),
            "samples": [o["key"] for o in ctx.obl[:40]],
            "checker_cmd": f"python3 sa/check.py {pid} {tier}",
            "notes": ctx.notes,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + BASE_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1)
    print(f"{pid}: {len(ctx.obl)} obligations, {len(ctx.obl) - len(bad) - len(found)} discharged, {len(ctx.fns)} functions, {ev['wall_s']} s")
    if bad:
        for o in bad[:20]:
            print(f"  [{o['key']}] {o['loc']}: {o['detail'][:int(os.environ.get("SA_WIDE", 700))]}")
        print(f"VIOLATION property={pid} replay={rep}")
        return 1
    return 0


BASE_ASSUMPTIONS = [
    "the type-checked MIR of rustc nightly is the program",
    "the built-in models of core/std/i_float/i_shape functions in sa/models.py",
    "integer arithmetic is treated as exact; overflow is a separate property (C07)",
]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    rc = [2]

    def body():
        try:
            rc[0] = run(pid, tier)
        except Exception as e:
            print(f"ERROR {type(e).__name__}: {str(e)[:2000]}")
            rc[0] = 2
    sys.stdout.flush()
    threading.stack_size(1 << 29)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])


if __name__ == "__main__":
    main()
