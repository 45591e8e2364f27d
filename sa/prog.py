"""The analysed program: MIR dump of /repo's current tree, produced by the rustc driver."""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
WORK = os.environ.get("SA_WORK", "/tmp/verif_sa")


class Fail(Exception):
    """the analysed tree no longer offers what a rule is anchored in (reported as a violation)"""


def _nightly_lib():
    root = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()
    return os.path.join(root, "lib")


def build_driver():
    src = os.path.join(VERIF, "driver")
    tgt = os.path.join(WORK, "driver")
    exe = os.path.join(tgt, "release", "mirdump")
    h = hashlib.sha256()
    for f in ("Cargo.toml", "src/main.rs", "src/dump.rs"):
        h.update(open(os.path.join(src, f), "rb").read())
    stamp = os.path.join(WORK, "driver.stamp")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return exe
    env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", RUSTFLAGS="")
    env.pop("RUSTUP_TOOLCHAIN", None)
    subprocess.run(["cargo", "+nightly", "build", "--release", "--quiet"], cwd=src, env=env, check=True)
    open(stamp, "w").write(h.hexdigest())
    return exe


def _tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "iOverlay", "src"), os.path.join(VERIF, "build"), os.path.join(VERIF, "driver", "src")):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def dump(features=True):
    """path of the MIR dump for the current tree"""
    os.makedirs(WORK, exist_ok=True)
    lock = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        exe = build_driver()
        key = _tree_hash()[:24] + ("-def" if features else "-nof")
        out = os.path.join(WORK, "dump-" + key)
        path = os.path.join(out, "i_overlay.json")
        if os.path.exists(path):
            return path
        tmp = os.path.join(WORK, "tmp-%d" % os.getpid())
        os.makedirs(tmp, exist_ok=True)
        tgt = os.path.join(WORK, "target" + ("" if features else "-nof"))
        env = dict(os.environ)
        env.pop("RUSTUP_TOOLCHAIN", None)
        env.update(
            LD_LIBRARY_PATH=_nightly_lib(), CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=tgt, RUSTC_WRAPPER=exe,
            MIRDUMP_OUT=tmp, MIRDUMP_CRATES="i_overlay", RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings",
            CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false", CARGO_PROFILE_DEV_OVERFLOW_CHECKS="true", CARGO_INCREMENTAL="0",
        )
        # cargo's freshness would skip the wrapper on a warm target: drop the crate's own artefacts
        for d in ("debug/.fingerprint", "debug/deps", "debug/build"):
            b = os.path.join(tgt, d)
            if os.path.isdir(b):
                for f in os.listdir(b):
                    if f.startswith(("i_overlay", "libi_overlay")):
                        p = os.path.join(b, f)
                        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        cmd = ["cargo", "+nightly", "check", "--quiet", "--locked", "--manifest-path", os.path.join(VERIF, "build", "overlay", "Cargo.toml")]
        if not features:
            cmd.append("--no-default-features")
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        src = os.path.join(tmp, "i_overlay.json")
        if r.returncode != 0 or not os.path.exists(src):
            shutil.rmtree(tmp, ignore_errors=True)
            raise Fail("the library does not compile (%s features):\n%s" % ("default" if features else "no", r.stdout[-3000:]))
        os.rename(tmp, out)
        olds = sorted((d for d in os.listdir(WORK) if d.startswith("dump-")), key=lambda d: os.path.getmtime(os.path.join(WORK, d)))
        for d in olds[:-6]:
            shutil.rmtree(os.path.join(WORK, d), ignore_errors=True)
        return path
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


class Prog:
    def __init__(self, features=True):
        self.path = dump(features)
        d = json.load(open(self.path))
        self.raw = d
        self.adts = d["adts"]
        self.layouts = d["layouts"]
        self.impls = d["impls"]
        self.bodies = {b["id"]: b for b in d["bodies"]}
        self.roots = d["roots"]
        self._ty = {}
        self.fns = [r for r in self.roots if r["fn"]]
        self.by_name = {}
        for r in self.roots:
            self.by_name.setdefault(r["n"], []).append(r)

    # ------------------------------------------------------------ types
    def ty(self, i):
        t = self._ty.get(i)
        if t is None:
            t = self._mkty(self.raw["types"][i])
            self._ty[i] = t
        return t

    def _mkty(self, t):
        k = t["k"]
        if k in ("int", "float"):
            return (k, t["n"])
        if k == "adt":
            return ("adt", t["n"], tuple(self.ty(x) for x in t["a"] if isinstance(x, int)))
        if k in ("ref", "ptr"):
            return (k, self.ty(t["e"]), t["mut"])
        if k == "slice":
            return ("slice", self.ty(t["e"]))
        if k == "array":
            return ("array", self.ty(t["e"]), t["len"])
        if k == "tuple":
            return ("tuple", tuple(self.ty(x) for x in t["a"]))
        if k == "closure":
            return ("closure", t["n"], tuple(self.ty(x) for x in t["up"]))
        if k == "fndef":
            return ("fndef", t["n"])
        if k in ("param", "other"):
            return (k, t["n"])
        return (k,)

    def adt_fields(self, ty, variant=0):
        """[(field name, type)] of a variant of a structural adt type"""
        a = self.adts.get(ty[1])
        if a is None:
            return None
        gens = [g for g in a["generics"] if not g.startswith("'")]
        sub = dict(zip(gens, ty[2]))
        vs = a["variants"]
        if variant >= len(vs):
            return []
        return [(f[0], self.subst(self.ty(f[1]), sub)) for f in vs[variant]["fields"]]

    def subst(self, t, sub):
        if not sub:
            return t
        if t[0] == "param":
            return sub.get(t[1], t)
        return tuple(self.subst(x, sub) if isinstance(x, tuple) and x and isinstance(x[0], str) else (tuple(self.subst(y, sub) for y in x) if isinstance(x, tuple) else x) for x in t)

    def is_enum(self, ty):
        return ty is not None and ty[0] == "adt" and self.adts.get(ty[1], {}).get("kind") == "enum"

    def variants(self, name):
        return [v["name"] for v in self.adts[name]["variants"]]

    # ------------------------------------------------------------ lookup
    def find(self, pat, count=None):
        """root functions whose path matches the regex"""
        r = [x for x in self.fns if re.search(pat, x["n"])]
        if count is not None and len(r) != count:
            raise Fail("expected %d function(s) matching /%s/, found %d: %s" % (count, pat, len(r), [x["n"] for x in r]))
        return r

    def one(self, pat):
        return self.find(pat, 1)[0]

    def method(self, self_ty, name, trait=None):
        """root function: method `name` of the local type whose path ends in self_ty"""
        out = []
        for r in self.fns:
            if r["m"] != name:
                continue
            if trait is None and False:
                continue
            if trait is not None and (r["trait"] or "").split("::")[-1] != trait:
                continue
            if self_ty is not None:
                if r["self"] is None:
                    continue
                if not self.ty_is(self.ty(r["self"]), self_ty):
                    continue
            out.append(r)
        if len(out) != 1:
            raise Fail("expected one method %s::%s%s, found %d %s" % (self_ty, name, " of " + trait if trait else "", len(out), [r["n"] for r in out]))
        return out[0]

    def ty_is(self, t, spec):
        return self.ty_str(t) == spec or (t[0] == "adt" and t[1].split("::")[-1] == spec)

    def ty_str(self, t):
        if t[0] in ("int", "float", "param", "other"):
            return t[1]
        if t[0] == "bool":
            return "bool"
        if t[0] == "adt":
            n = t[1].split("::")[-1]
            return n + ("<" + ",".join(self.ty_str(x) for x in t[2]) + ">" if t[2] else "")
        if t[0] == "ref":
            return "&" + ("mut " if t[2] else "") + self.ty_str(t[1])
        if t[0] == "slice":
            return "[" + self.ty_str(t[1]) + "]"
        if t[0] == "array":
            return "[" + self.ty_str(t[1]) + ";" + str(t[2]) + "]"
        if t[0] == "tuple":
            return "(" + ",".join(self.ty_str(x) for x in t[1]) + ")"
        return t[0]

    def body(self, r):
        return self.bodies[r["id"]]

    def loc(self, b):
        f, l = b["span"]
        return "%s:%d" % (f.replace(REPO + "/", ""), l)

    # ------------------------------------------------------------ call graph
    def callees(self, b):
        """[(block index, line, callee dict or None, args, dest)] for the non-cleanup blocks of a body"""
        out = []
        for i, k in enumerate(b["blocks"]):
            if k["u"]:
                continue
            t = k["t"]
            if t[0] == "call":
                f = t[1][1]["fn"] if t[1][0] == "k" and t[1][1].get("c") == "fn" else None
                out.append((i, k["l"], f, t[2], t[3]))
        return out


def callee_name(f):
    if f is None:
        return None
    return (f["inst"] or f)["n"]
