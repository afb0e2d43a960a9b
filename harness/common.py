"""Shared machinery: running TLC, talking JSON to it, collecting verdicts, writing the evidence file."""
import json
import os
import random
import re
import signal
import subprocess
import sys
import time
import traceback

HOME = os.environ.get("VERIF_HOME", "/verif")
WORK = os.environ.get("VERIF_WORK", "/tmp")
TREE = os.environ.get("SIMCATS_TREE", "/repo")
SPEC = os.path.join(HOME, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
INT_MAX = 2 ** 31 - 1


class MachineryError(Exception):
    """The checker itself failed (not the code under test)."""


def to_tla(x):
    """Converts numpy scalars/arrays to JSON-able values and insists on 32-bit integers (TLC's range)."""
    import numpy as np
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        x = int(x)
        if abs(x) > INT_MAX:
            raise MachineryError(f"integer {x} does not fit into TLC's 32 bits")
        return x
    if isinstance(x, str):
        return x
    if isinstance(x, np.ndarray):
        return [to_tla(v) for v in x.tolist()]
    if isinstance(x, (list, tuple)):
        return [to_tla(v) for v in x]
    if isinstance(x, dict):
        return {str(k): to_tla(v) for k, v in x.items()}
    raise MachineryError(f"cannot hand {type(x)} ({x!r}) to TLC")


BAD = 2_000_000_000  # what a NaN / an infinite or a huge number looks like for the specification


def quant(x, scale, cap=BAD):
    """Floats -> integers (rounded value of x*scale); NaN and values that do not fit become +-BAD."""
    import numpy as np
    a = np.asarray(x, dtype=float) * scale
    with np.errstate(invalid="ignore"):
        bad = ~np.isfinite(a) | (np.abs(a) > cap)
        r = np.where(bad, 0, np.rint(np.where(bad, 0, a))).astype(np.int64)
        sign = np.where(np.nan_to_num(a, nan=1.0) < 0, -1, 1)
    r = np.where(bad, sign * BAD, r)
    return r.tolist() if r.ndim else int(r)


_DESK = {}


def again(rng, slot, a):
    """The same array as an array of its own, or in the array the caller handed over last time, which he overwrites."""
    import numpy as np
    old = _DESK.get(slot)
    if old is not None and old.shape == np.shape(a) and old.dtype == np.asarray(a).dtype and rng.random() < 0.5:
        old[...] = a
        return old
    _DESK[slot] = np.array(a)
    return _DESK[slot]


def layout(rng, a, slot=None):
    """The same array in some memory layout: contiguous, Fortran order, reversed or strided view, or (slot) an array that is used again."""
    import numpy as np
    if slot is not None and rng.random() < 0.5:
        return again(rng, slot, a)
    k = rng.randrange(6)
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        return np.ascontiguousarray(a[::-1])[::-1]
    if k == 2:
        big = np.zeros(tuple(2 * x for x in a.shape), dtype=a.dtype)
        view = big[tuple(slice(None, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    return np.ascontiguousarray(a)


class Check:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.quick = tier != "thorough"
        self.rng = random.Random(f"{prop}-{seed}")
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.findings = []
        self.known = load_known(prop)

    def npseed(self, *key):
        import hashlib
        h = hashlib.sha256(repr((self.prop, self.seed) + key).encode()).digest()
        return int.from_bytes(h[:4], "big")

    # ------------------------------------------------------------------ verdicts
    def violation(self, clause, detail, key=None):
        """Reports that the code breaks the property. `key` identifies the failing input for known findings."""
        for k in self.known:
            if key is not None and k.get("key") == key:
                if key not in self.findings:
                    self.findings.append(key)
                    print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
                return
        self.violations.append({"clause": clause, "detail": detail, "key": key})

    def sample(self, x):
        if len(self.samples) < 4:
            self.samples.append(x)

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=4, timeout=600, simulate=None, extra=(), expect_ok=True,
            mem="3g", count=True):
        """Runs TLC on spec/<module>.tla. Returns the output; states/transitions are added to the evidence."""
        cfg = cfg or module
        meta = os.path.join(WORK, f"tlc_{module}_{os.getpid()}_{time.time_ns()}")
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{mem}", "-Xss16m", "-Djava.io.tmpdir=" + WORK, "-cp", JARS, "tlc2.TLC",
               "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-deadlock",
               "-config", os.path.join(SPEC, cfg + ".cfg")]
        if simulate:
            cmd += ["-simulate", simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        p = subprocess.run(cmd, cwd=WORK, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
        out = p.stdout
        subprocess.run(["rm", "-rf", meta])
        m = re.search(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        res = TlcResult(out, p.returncode)
        if m:
            res.generated, res.distinct = int(m.group(1)), int(m.group(2))
        else:
            m = re.search(r"The number of states generated: (\d+)", out)
            if m:
                res.generated = res.distinct = int(m.group(1))
        if count:
            self.states += res.distinct
            self.transitions += res.generated
        if expect_ok and (p.returncode != 0 or "Error:" in out):
            raise MachineryError(f"TLC failed on {module} ({cfg}): rc={p.returncode}\n" + out[max(out.find("Error:"), 0):][:1500] + "\n...\n" + out[-3000:])
        return res

    def model(self, module, cfg=None, **kw):
        """Exhaustive model check of the specification itself: every invariant must hold."""
        r = self.tlc(module, cfg, **kw)
        if "No error has been found" not in r.out:
            raise MachineryError(f"the specification {module} breaks its own properties:\n" + r.out[-4000:])
        self.extra.setdefault("models", {})[cfg or module] = {"distinct": r.distinct, "generated": r.generated}
        return r

    def validate(self, module, cases, cfg=None, describe=None, keyfn=None, stride=6, env=None, **kw):
        """Has TLC decide recorded cases/traces: the module steps through them and prints, for each, the set of failing
        clauses. Every case must get exactly one verdict, otherwise the machinery failed."""
        if not cases:
            raise MachineryError(f"{module}: nothing to validate")
        path = os.path.join(WORK, f"{module}_{time.time_ns()}.json")
        with open(path, "w") as f:
            json.dump([to_tla(c["tla"] if "tla" in c else c) for c in cases], f)
        e = {"CASES": path, "STRIDE": stride}
        e.update(env or {})
        r = self.tlc(module, cfg, env=e, **kw)
        os.remove(path)
        verdicts = {}
        for m in re.finditer(r'^<<\s*"VERDICT",\s*(\d+),\s*(\{.*?\})\s*>>$', r.out, re.M | re.S):
            i = int(m.group(1)) - 1
            clauses = re.findall(r'"([^"]*)"', m.group(2))
            verdicts.setdefault(i, set()).update(clauses)
        missing = [i for i in range(len(cases)) if i not in verdicts]
        if missing:
            raise MachineryError(f"{module}: no verdict for case(s) {missing[:5]} of {len(cases)}\n" + r.out[-3000:])
        self.traces += len(cases)
        for i in sorted(verdicts):
            if verdicts[i]:
                c = cases[i]
                d = describe(c) if describe else c.get("desc", c.get("tla", c))
                # a known finding of a case covers only the clause it names
                known = verdicts[i] == {c["clause"]} if "clause" in c else True
                self.violation(",".join(sorted(verdicts[i])), {"module": module, "case": i, "what": d},
                               key=(keyfn(c) if keyfn else c.get("key")) if known else None)
        if self.samples is not None and cases:
            c = cases[len(cases) // 2]
            self.sample(c.get("desc", _shorten(c.get("tla", c))))
        return verdicts

    # ------------------------------------------------------------------ the end
    def finish(self):
        os.makedirs(os.path.join(HOME, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": [_shorten(s) for s in self.samples]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(HOME, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        path = os.path.join(HOME, "evidence", f"{self.prop}.violation.json")
        if os.path.exists(path):
            os.remove(path)
        if self.violations:
            with open(path, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "tree": TREE,
                           "violations": self.violations[:50]}, f, indent=1, default=str)
            for v in self.violations[:5]:
                print("  broken:", v["clause"], "--", str(v["detail"])[:600])
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(f"OK property={self.prop} states={self.states} transitions={self.transitions} traces={self.traces} "
              f"wall={ev['wall_s']}s")
        return 0


class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc, self.generated, self.distinct = out, rc, 0, 0

    def printed(self, tag):
        """Values printed with PrintT(<<tag, ToJson(x)>>)."""
        res = []
        for line in self.out.splitlines():
            if line.startswith(f'<<"{tag}", "') and line.endswith('">>'):
                body = line[len(f'<<"{tag}", "'):-3]
                res.append(json.loads(body.replace('\\"', '"').replace("\\\\", "\\")))
        return res


def _shorten(x, n=700):
    s = json.dumps(x, default=str)
    return x if len(s) <= n else s[:n] + "..."


def load_known(prop):
    res = []
    p = os.path.join(HOME, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k.get("property") == prop and k.get("status") == "open":
                    res.append(k)
    return res


def call(f, *a, **kw):
    """Runs code under test. Returns (value, None) or (None, exception name)."""
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return f(*a, **kw), None
    except Exception as e:  # noqa
        return None, type(e).__name__


def in_repo(tb):
    """True if the innermost frames of a traceback lie in the code under test."""
    return any(fr.filename.startswith(os.path.join(TREE, "simcats")) for fr in traceback.extract_tb(tb))
