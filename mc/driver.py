"""Driver: explores all units of one check on worker processes and writes the evidence file."""
import collections
import json
import os
import queue
import signal
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
UNIT_LIMIT = {"quick": 600, "thorough": 5400}


def load_known(prop):
    """Known findings: property -> {key: text}; 'fixed:' lines suppress nothing."""
    known = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: "):
                fields = line[len("finding: "):].split(" ", 2)
                p = fields[0].split("=", 1)[1]
                key = fields[1].split("=", 1)[1]
                if p == prop:
                    known[key] = fields[2]
    return known


class Worker:
    def __init__(self, idx, prop, tier, scratch, extra):
        self.dir = os.path.join(scratch, f"w{idx}")
        os.makedirs(self.dir)
        env = dict(os.environ)
        env.update(
            XDG_CACHE_HOME=os.path.join(self.dir, "cache"),
            XDG_CONFIG_HOME=os.path.join(self.dir, "config"),
            TMPDIR=self.dir,
            MC_SCRATCH=self.dir,
            OPENBLAS_NUM_THREADS="1",
            OMP_NUM_THREADS="4",
            OMP_WAIT_POLICY="passive",
            OMP_DYNAMIC="false",
            MC_TIER=tier,
        )
        env.update(extra)
        self.err = open(os.path.join(self.dir, "stderr"), "w+")
        self.proc = subprocess.Popen(
            [sys.executable, os.path.join(HERE, "worker.py"), prop, tier],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
            env=env, cwd=self.dir, start_new_session=True, text=True,
        )

    def tail(self):
        self.err.flush()
        with open(self.err.name) as f:
            return f.read()[-3000:]

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = json.load(open(args.pop(0)))
        else:
            sys.exit(f"unknown argument {a}")
    if tier not in UNIT_LIMIT:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"mc-{prop}-")
    evidence_dir = os.path.join(VERIF, "evidence")
    os.makedirs(evidence_dir, exist_ok=True)
    try:
        return run(prop, tier, replay, seed, t0, scratch, evidence_dir)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(prop, tier, replay, seed, t0, scratch, evidence_dir):
    import importlib

    import fastcc

    mod = importlib.import_module(f"checks.{prop.lower()}")
    known = load_known(prop)
    # environment of the workers the check needs (it may build things in scratch first)
    extra = (mod if hasattr(mod, "prepare") else fastcc).prepare(scratch)
    units = list(mod.units(tier))
    names = [u["name"] for u in units]
    assert len(set(names)) == len(names), "duplicate unit names"
    if replay is not None:
        units = [u for u in units if u["name"] == replay["unit"]]
        if not units:
            units = [{"name": replay["unit"], "params": replay["params"]}]
    # longest first when the check says so, otherwise in the listed order
    units.sort(key=lambda u: -u.get("cost", 1))
    todo = queue.SimpleQueue()
    for u in units:
        todo.put(u)
    nworkers = max(1, min(len(units), getattr(mod, "WORKERS", os.cpu_count() or 4), 8))
    lock = threading.Lock()
    total = collections.Counter()
    samples, violations, findings, errors, done = [], [], {}, [], []
    stop = threading.Event()
    workers = {}

    def loop(idx):
        gen = 0
        w = None
        while not stop.is_set():
            try:
                u = todo.get_nowait()
            except queue.Empty:
                break
            if w is None:
                w = Worker(f"{idx}-{gen}", prop, tier, scratch, extra)
                gen += 1
                workers[idx] = w
            timer_hit = []

            def on_timeout(w=w, timer_hit=timer_hit):
                timer_hit.append(1)
                w.kill()

            timer = threading.Timer(UNIT_LIMIT[tier], on_timeout)
            timer.start()
            tu = time.time()
            try:
                w.proc.stdin.write(json.dumps(u) + "\n")
                w.proc.stdin.flush()
                line = w.proc.stdout.readline()
            except (BrokenPipeError, OSError):
                line = ""
            timer.cancel()
            if stop.is_set():
                break
            with lock:
                if line:
                    r = json.loads(line)
                    total.update(r["counts"])
                    done.append((u["name"], round(time.time() - tu, 2)))
                    if len(samples) < 40:
                        samples.extend(r["samples"][:3])
                    for f in r["findings"]:
                        findings.setdefault(f["key"], f["what"])
                    for v in r["violations"]:
                        v["unit"] = u["name"]
                        v["params"] = u["params"]
                        violations.append(v)
                    if r.get("error"):
                        errors.append((u["name"], r["error"]))
                else:
                    rc = w.proc.poll()
                    if rc is None:
                        w.proc.wait()
                        rc = w.proc.returncode
                    what = (
                        f"no result within {UNIT_LIMIT[tier]} s (code under test does not end)"
                        if timer_hit
                        else f"worker process ended with status {rc} inside the code under test"
                    )
                    # a killed process (SIGKILL) that we did not kill: out of memory -> error
                    if not timer_hit and rc == -signal.SIGKILL:
                        errors.append((u["name"], "worker was killed: " + w.tail()))
                    elif not timer_hit and rc is not None and rc >= 0:
                        errors.append((u["name"], f"worker exited {rc}: " + w.tail()))
                    else:
                        violations.append(
                            dict(unit=u["name"], params=u["params"], what=what,
                                 detail={"stderr": w.tail()})
                        )
                    w = None
                if violations or errors:
                    stop.set()
                    for x in list(workers.values()):
                        if x is not w:
                            try:
                                x.kill()
                            except Exception:
                                pass
        if w is not None:
            w.kill()

    threads = [threading.Thread(target=loop, args=(i,)) for i in range(nworkers)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()

    unknown_findings = {k: v for k, v in findings.items() if k not in known}
    for k, v in unknown_findings.items():
        violations.append(dict(unit="finding", params={}, what=f"{k}: {v}", detail={}))

    wall = time.time() - t0
    coverage = {
        "states": int(total.get("states", 0)),
        "transitions": int(total.get("transitions", 0)),
        "traces_validated_against_impl": int(total.get("traces", 0)),
        "samples": samples[:12] or ["none"],
        "units_completed": len(done),
        "units_total": len(units),
        "exhaustive": bool(len(done) == len(units) and not violations and not errors),
        "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""),
        "explanation": getattr(mod, "EXPLANATION", ""),
    }
    for k, v in sorted(total.items()):
        if k not in ("states", "transitions", "traces"):
            coverage[k] = int(v)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    if replay is None:
        with open(os.path.join(evidence_dir, f"{prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
    if os.environ.get("MC_TIMES"):
        for n, s in sorted(done, key=lambda x: -x[1])[:25]:
            print(f"  {s:8.2f}s {n}")
    print(
        f"{prop} {tier}: {len(done)}/{len(units)} units, "
        + ", ".join(f"{k}={v}" for k, v in sorted(total.items()))
        + f", {wall:.1f}s"
    )
    for k in sorted(findings):
        if k in known:
            print(f"KNOWN-FINDING: property={prop} {k}: {known[k]}")
    if errors and not violations:
        for n, e in errors:
            print(f"ERROR in unit {n}:\n{e}", file=sys.stderr)
        return 2
    if violations:
        v = violations[0]
        path = os.path.join(evidence_dir, f"replay-{prop}.json")
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        for v in violations[:5]:
            print(f"  [{v['unit']}] {v['what']}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code or 0)
