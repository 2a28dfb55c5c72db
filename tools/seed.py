#!/usr/bin/env python3
"""Planted bugs: create and confirm.

seed.py new SPEC.py      make seeded/<id>/ from a spec (ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO)
seed.py confirm ID...    demo passes on the clean tree, fails with the patch, stable tests pass
seed.py check ID [PROP]  run the property's quick check against a patched scratch copy
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile, time
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
export XDG_CACHE_HOME=$work/cache XDG_CONFIG_HOME=$work/config TMPDIR=$work
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD OPENBLAS_NUM_THREADS=1 WORK=$work
/opt/venv/bin/python "$here/demo.py"
'''
NUMBA = '''import sys, types
try:  # numba is not installed everywhere: the plain Python bodies do
    import numba  # noqa
except ImportError:
    nb = types.ModuleType("numba")
    nb.njit = nb.jit = lambda *a, **k: a[0] if a and callable(a[0]) else (lambda f: f)
    nb.prange = range
    sys.modules["numba"] = nb
'''


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def scratch():
    d = tempfile.mkdtemp(prefix="seed-")
    r = os.path.join(d, "repo")
    sh(["cp", "-a", "/repo", r])
    return d, r


def new(path):
    s = runpy.run_path(path)
    d, r = scratch()
    try:
        for f, old, new_, *n in s["EDITS"]:
            p = os.path.join(r, f)
            t = open(p).read()
            want = n[0] if n else 1
            assert t.count(old) == want, f"{f}: {t.count(old)} matches of {old!r}, expected {want}"
            open(p, "w").write(t.replace(old, new_))
        out = os.path.join(SEEDED, s["ID"])
        os.makedirs(out, exist_ok=True)
        diff = subprocess.run(["git", "-C", r, "diff"], stdout=subprocess.PIPE, text=True).stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        demo = s["DEMO"]
        open(os.path.join(out, "demo.py"), "w").write((NUMBA if s.get("NUMBA") else "") + demo)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]),
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        print("made", s["ID"])
    finally:
        shutil.rmtree(d)
    return s["ID"]


def tests(repo):
    d = tempfile.mkdtemp(prefix="seedt-")
    env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               XDG_CACHE_HOME=d + "/cache", XDG_CONFIG_HOME=d + "/config")
    o = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300",
            "--continue-on-collection-errors", "--ignore=tests/test_numeric/test_immersed_boundary_ops",
            "-o", "junit_family=xunit2", f"--junitxml={d}/j.xml", "tests"], cwd=repo, env=env)
    good = set()
    for c in ET.parse(f"{d}/j.xml").iter("testcase"):
        if not any(x.tag in ("failure", "error", "skipped") for x in c):
            good.add(c.get("classname") + "::" + c.get("name"))
    shutil.rmtree(d)
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    bad = [t for t in stable if t not in good]
    return bad, o.stdout[-1500:]


def confirm(i):
    d, r = scratch()
    src = os.path.join(SEEDED, i)
    try:
        demo = os.path.join(d, "demo")
        shutil.copytree(src, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        t = time.time()
        a = sh(["bash", demo + "/demo.sh"], cwd=r)
        p = sh(["git", "-C", r, "apply", src + "/patch.diff"])
        b = sh(["bash", demo + "/demo.sh"], cwd=r)
        t = time.time() - t
        bad, tail = tests(r)
        ok = a.returncode == 0 and p.returncode == 0 and b.returncode not in (0, None) and not bad
        print(f"{i}: {'CONFIRMED' if ok else 'BAD'} clean={a.returncode} apply={p.returncode} "
              f"patched={b.returncode} failing_tests={len(bad)} demos {t:.0f}s", flush=True)
        if not ok:
            print(a.stdout[-1500:] if a.returncode else "", p.stdout, "PATCHED:", b.stdout[-600:], bad[:5],
                  tail if bad else "", flush=True)
        return ok
    finally:
        shutil.rmtree(d)


def check(i, prop=None, tier="quick"):
    d, r = scratch()
    src = os.path.join(SEEDED, i)
    prop = prop or json.load(open(src + "/meta.json"))["property"]
    try:
        p = sh(["git", "-C", r, "apply", src + "/patch.diff"])
        assert p.returncode == 0, p.stdout
        t = time.time()
        o = sh([VERIF + "/run.sh", prop, tier], env=dict(os.environ, MC_REPO=r))
        v = [l for l in o.stdout.splitlines() if l.startswith("VIOLATION")]
        caught = o.returncode == 1 and any(f"property={prop} " in l for l in v)
        print(f"{i}: {prop} {'caught' if caught else 'MISSED'} rc={o.returncode} "
              f"{time.time() - t:.0f}s", flush=True)
        if not caught:
            print(o.stdout[-1500:], flush=True)
        else:
            det = [l for l in o.stdout.splitlines() if not l.startswith(("VIOLATION", "KNOWN"))]
            print("   ", *(x[:230] for x in det[:2]), sep="\n    ", flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "new":
        for a in args:
            new(a)
    elif cmd == "confirm":
        for a in args:
            confirm(a)
    elif cmd == "check":
        check(*args)
    elif cmd == "checkall":
        for a in args:
            check(a)
