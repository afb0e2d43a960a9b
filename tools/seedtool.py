"""Builds /verif/seeded/<id>/ from tools/seed_defs.py and checks each seed on scratch copies of /repo.

seedtool.py build [ids]           write patch.diff, demo.sh, demo.py, meta.json
seedtool.py demo [ids]            demo passes on /repo, fails with the patch
seedtool.py tests [ids]           the stable tests pass with the patch
seedtool.py checks [ids] [-all]   run the check of the property (or all checks) against the patched copy
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from seed_defs import SEEDS  # noqa: E402

PY = "/opt/venv/bin/python"


def copy(seed=None):
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    r = os.path.join(d, "repo")
    subprocess.run(["cp", "-a", "/repo", r], check=True)
    if seed:
        subprocess.run(["git", "-C", r, "apply", os.path.join(HERE, "seeded", seed["id"], "patch.diff")], check=True)
    return d, r


def build(s):
    d, r = copy()
    try:
        for f, old, new, *how in s["edits"]:
            p = os.path.join(r, "simcats", f)
            t = open(p).read()
            assert t.count(old) >= 1, (s["id"], "old text not found", old)
            assert how or t.count(old) == 1, (s["id"], "old text is not unique", t.count(old))
            open(p, "w").write(t.replace(old, new, 1))
        diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True, check=True).stdout
        blame_ok = subprocess.run(["git", "-C", r, "diff", "-U0"], capture_output=True, text=True).stdout
        assert diff.strip(), s["id"]
        # removed lines have to be lines of the original repository
        base = {}
        for f, *_ in s["edits"]:
            base[f] = set(subprocess.run(["git", "-C", "/repo", "show", "ffda3b5:simcats/" + f], capture_output=True, text=True).stdout.splitlines())
        allb = set().union(*base.values())
        removed = [x[1:] for x in blame_ok.splitlines() if x.startswith("-") and not x.startswith("---")]
        foreign = [x for x in removed if x.strip() and x not in allb]
        if foreign:
            print(s["id"], "touches lines of fix commits:", foreign)
    finally:
        shutil.rmtree(d)
    o = os.path.join(HERE, "seeded", s["id"])
    os.makedirs(o, exist_ok=True)
    open(os.path.join(o, "patch.diff"), "w").write(diff)
    open(os.path.join(o, "demo.py"), "w").write(s["demo"].lstrip())
    open(os.path.join(o, "demo.sh"), "w").write(
        '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(o, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(o, "meta.json"), "w"), indent=1)


def demo(s):
    cmd = ["timeout", "250", os.path.join(HERE, "seeded", s["id"], "demo.sh")]
    a = subprocess.run(cmd, cwd="/repo", capture_output=True, text=True)
    d, r = copy(s)
    try:
        b = subprocess.run(cmd, cwd=r, capture_output=True, text=True)
    finally:
        shutil.rmtree(d)
    ok = a.returncode == 0 and b.returncode not in (0, 124)
    print(s["id"], "demo", "ok" if ok else "BAD", a.returncode, b.returncode, (a.stderr[-300:] if a.returncode else "") + " | " + b.stderr.strip().splitlines()[-1][:200] if b.stderr.strip() else "", flush=True)
    return ok


def tests(s):
    d, r = copy(s)
    try:
        w = os.path.join(d, "w")
        os.makedirs(os.path.join(w, "xml"))
        env = dict(os.environ, WORK=w, PYTHONPYCACHEPREFIX=w + "/pyc", MPLBACKEND="Agg", MPLCONFIGDIR=w + "/mpl", PYTHONHASHSEED="0",
                   OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONPATH=r)
        sh = r"""find tests -path tests/parameter_sampling -prune -o \( -name '*_test.py' -o -name 'test_*.py' \) -print | LC_ALL=C sort |
xargs -P 8 -I{} bash -c 'f=$1; timeout -k 10 800 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --disable-warnings --timeout=400 --continue-on-collection-errors -o junit_family=xunit2 --junitxml="$WORK/xml/$(echo "$f" | tr / _).xml" "$f"' _ {}"""
        p = subprocess.run(["bash", "-c", sh], cwd=r, env=env, capture_output=True, text=True)
        out = os.path.join(d, "out.json")
        subprocess.run([PY, "/opt/vp/results.py", out, f"junit:{w}/xml/*.xml"], capture_output=True)
        o = json.load(open(out))
        base = json.load(open("/opt/vp/BASELINE.json"))
    finally:
        shutil.rmtree(d)
    stable = base.get("stable") or base.get("passed") or base.get("tests") or base
    passed = set(o["passed"] if isinstance(o.get("passed"), list) else [k for k, v in o.items() if v == "passed"])
    missing = [t for t in stable if t not in passed]
    print(s["id"], "tests", "ok" if not missing else f"BAD {len(missing)}: {missing[:3]}", flush=True)
    return not missing


def checks(s, allc):
    d, r = copy(s)
    try:
        ids = [s["property"]]
        if allc:
            ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
        for c in ids:
            p = subprocess.run([os.path.join(HERE, "bin", "check"), c, "quick"], env=dict(os.environ, SIMCATS_REPO=r), capture_output=True, text=True)
            if p.returncode or c == s["property"]:
                print(s["id"], c, "caught" if p.returncode == 1 else ("MISSED" if p.returncode == 0 else "BROKEN"), (p.stdout + p.stderr).strip()[:160].replace("\n", " "), flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    mode = sys.argv[1]
    ids = [a for a in sys.argv[2:] if not a.startswith("-")]
    for s in SEEDS:
        if ids and s["id"] not in ids:
            continue
        if mode == "build":
            build(s)
        elif mode == "demo":
            demo(s)
        elif mode == "tests":
            tests(s)
        elif mode == "checks":
            checks(s, "-all" in sys.argv)
