"""Worker: runs exploration units of one check, one JSON line in, one JSON line out."""
import collections
import importlib
import json
import os
import sys
import traceback

REPO = os.path.realpath(os.environ.get("MC_REPO", "/repo"))


class Violation(Exception):
    def __init__(self, what, detail=None):
        super().__init__(what)
        self.what = what
        self.detail = detail


class Context:
    """Counters and verdicts of one unit."""

    Violation = Violation

    def __init__(self, tier, scratch):
        self.tier = tier
        self.scratch = scratch
        self.counts = collections.Counter()
        self.seen = set()
        self.samples = []
        self.findings = []
        self.history = None  # what is being run now, shown if the code raises

    def state(self, key):
        """Visit a state, identified by a hashable key; distinct ones are counted."""
        self.seen.add(hash(key))

    def transitions(self, n=1):
        self.counts["transitions"] += n

    def traces(self, n=1):
        self.counts["traces"] += n

    def count(self, key, n=1):
        self.counts[key] += n

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def finding(self, key, what):
        if not any(f["key"] == key for f in self.findings):
            self.findings.append(dict(key=key, what=what))

    def fail(self, what, detail=None):
        raise Violation(what, detail)


def jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist()) if x.size <= 400 else f"array{x.shape}"
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)


def main():
    prop, tier = sys.argv[1:3]
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)  # anything the code prints goes to stderr
    mod = importlib.import_module(f"checks.{prop.lower()}")
    scratch = os.environ["MC_SCRATCH"]
    for line in sys.stdin:
        unit = json.loads(line)
        ctx = Context(tier, scratch)
        violations, error = [], None
        try:
            mod.run_unit(ctx, unit["params"])
        except Violation as v:
            violations.append(dict(what=v.what, detail=jsonable(v.detail)))
        except MemoryError:
            error = traceback.format_exc()
        except Exception as exc:  # noqa
            tb = traceback.extract_tb(exc.__traceback__)
            text = traceback.format_exc()[-3000:]
            if isinstance(exc, OSError) and exc.errno in (28, 12, 24):
                error = text
            elif any(os.path.realpath(f.filename).startswith(REPO + os.sep) for f in tb) or any(
                "pystencils" in f.filename or "kernel_wrapper" in f.filename for f in tb
            ):
                violations.append(
                    dict(what=f"unexpected {type(exc).__name__} from the code: {exc}",
                         detail={"history": jsonable(ctx.history), "traceback": text})
                )
            elif isinstance(exc, (ValueError, IndexError, KeyError, TypeError)):
                # The check passes on what the code should return, so what it did return has the
                # wrong shape, type or number of elements, or a library refused it.
                violations.append(
                    dict(what=f"what the code returned cannot be used: {type(exc).__name__}: {exc}",
                         detail={"history": jsonable(ctx.history), "traceback": text})
                )
            else:
                error = text
        out.write(json.dumps(dict(counts=dict(ctx.counts, states=len(ctx.seen)), samples=jsonable(ctx.samples),
                                  findings=ctx.findings, violations=violations,
                                  error=error)) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
