"""Fork-based map: workers share the parsed tree, their obligations are merged into the report."""
from __future__ import annotations

import os
import pickle
import sys
import traceback

from .project import AnalysisError


def pmap(fn, tasks, rep, workers=None):
    workers = min(workers or min(8, os.cpu_count() or 1), max(1, len(tasks)))
    if workers <= 1 or os.environ.get("WXCHECK_SERIAL"):
        return [fn(t) for t in tasks]
    queue = list(range(len(tasks)))
    running = {}
    results = [None] * len(tasks)
    base = {k: (r["obligations"], r["discharged"]) for k, r in rep.rules.items()}
    nf, nu = len(rep.findings), len(rep.undecided)
    sys.stdout.flush()
    while queue or running:
        while queue and len(running) < workers:
            i = queue.pop(0)
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                try:
                    try:
                        res = ("ok", fn(tasks[i]))
                    except AnalysisError as e:
                        res = ("analysis", str(e))
                    except Exception as e:  # noqa: BLE001
                        res = ("crash", f"{type(e).__name__}: {e}\n{traceback.format_exc()}")
                    delta = {k: (r["obligations"] - base[k][0], r["discharged"] - base[k][1], r["samples"]) for k, r in rep.rules.items()}
                    data = pickle.dumps((res, delta, rep.findings[nf:], rep.undecided[nu:], rep.analysed))
                    with os.fdopen(wfd, "wb") as fh:
                        fh.write(data)
                finally:
                    os._exit(0)
            os.close(wfd)
            running[pid] = (i, rfd)
        # read one finished worker (reading to EOF blocks until it is done)
        pid, (i, rfd) = next(iter(running.items()))
        with os.fdopen(rfd, "rb") as fh:
            data = fh.read()
        os.waitpid(pid, 0)
        del running[pid]
        if not data:
            raise AnalysisError(f"worker for {tasks[i]!r} died")
        results[i] = pickle.loads(data)
    errors = []
    out = []
    for i, (res, delta, finds, und, ana) in enumerate(results):
        for k, (o, d, smp) in delta.items():
            r = rep.rules[k]
            r["obligations"] += o
            r["discharged"] += d
            for x in smp:
                if len(r["samples"]) < 3 and x not in r["samples"]:
                    r["samples"].append(x)
        for f in finds:
            if not any(g["rule"] == f["rule"] and g["construct"] == f["construct"] for g in rep.findings):
                rep.findings.append(f)
        rep.undecided.extend(und)
        rep.analysed |= ana
        if res[0] == "analysis":
            errors.append(res[1])
            out.append(None)
        elif res[0] == "crash":
            sys.stderr.write(res[1])
            raise RuntimeError(res[1].splitlines()[0])
        else:
            out.append(res[1])
    if errors:
        raise AnalysisError("; ".join(errors[:5]))
    return out
