"""Drives the checks: Hypothesis campaigns in worker processes, shrinking,
replay files, known findings, evidence."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import zlib
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class Part:
    """One generated campaign of a property.

    strategy: callable () -> Hypothesis strategy of JSON case documents
    check:    callable case -> info dict; raises Violation / Skip
              info: {"nt": bool (non-trivial), "tags": [...]}
    quick / thorough: number of examples over all workers
    """

    def __init__(
        self, name, strategy, check, quick, thorough, timeout=6, hang=False, rule=""
    ):
        self.timeout = timeout
        self.hang = hang
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.rule = rule


class _Abort(BaseException):
    pass


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def run_one(part, case, known):
    """-> (status, info) with status ok / skip / known / violation / error"""
    from .engine import Skip, Violation
    from .specoracle import CaseTimeout

    def alarm(*_a):
        raise CaseTimeout

    old = signal.signal(signal.SIGALRM, alarm)
    # repeated, as an exception raised in a finalizer is swallowed
    signal.setitimer(signal.ITIMER_REAL, part.timeout, 2.0)
    try:
        info = part.check(case)
        return "ok", info or {}
    except CaseTimeout:
        if part.hang:
            return "violation", {"msg": "no answer within %ss" % part.timeout}
        return "skip", {"why": "case timeout"}
    except Skip as e:
        return "skip", {"why": str(e)}
    except Violation as e:
        sig = getattr(e, "sig", None)
        for k in known:
            if k.get("status") == "open" and (
                (sig is not None and sig == k.get("signature"))
                or (k.get("case") is not None and k["case"] == case)
            ):
                return "known", {"id": k["id"]}
        return "violation", {"msg": str(e), "sig": sig}
    except RecursionError:
        return "error", {"msg": traceback.format_exc()[-3000:]}
    except Exception:  # harness error
        return "error", {"msg": traceback.format_exc()[-6000:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def worker(prop, part_idx, wid, n, seed, budget, shrink_s, known, out):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    mod = importlib.import_module("props." + prop.lower())
    part = mod.PARTS[part_idx]
    st = {
        "evaluations": 0,
        "skips": Counter(),
        "tags": Counter(),
        "known": Counter(),
        "hashes": set(),
        "samples": [],
        "fail": None,
        "error": None,
        "budget_hit": False,
        "part": part.name,
    }
    start = time.monotonic()
    found = [None, None]  # time of first failure, best

    def body(case):
        now = time.monotonic()
        if found[0] is not None and now - found[0] > shrink_s:
            raise _Abort
        if now - start > budget:
            st["budget_hit"] = True
            raise _Abort
        status, info = run_one(part, case, known)
        if found[0] is None:
            st["evaluations"] += 1
            if status == "skip":
                st["skips"][info.get("why", "")[:60]] += 1
            elif status == "known":
                st["known"][info["id"]] += 1
            elif status == "ok":
                for t in info.get("tags", ()):
                    st["tags"][t] += 1
                if info.get("nt"):
                    h = case_hash(case)
                    if h not in st["hashes"]:
                        st["hashes"].add(h)
                        if len(st["samples"]) < 2 and len(json.dumps(case)) < 4000:
                            st["samples"].append(case)
        if status == "violation":
            if found[0] is None:
                found[0] = now
            size = len(json.dumps(case))
            if found[1] is None or size < found[1][0]:
                found[1] = (size, case, info["msg"])
            raise AssertionError(info["msg"])
        if status == "error":
            st["error"] = {"msg": info["msg"], "case": case}
            raise _Abort

    run = hypothesis.seed(seed)(
        settings(
            max_examples=max(1, n),
            database=None,
            deadline=None,
            suppress_health_check=list(HealthCheck),
            phases=[Phase.generate, Phase.shrink],
            report_multiple_bugs=False,
            print_blob=False,
        )(given(part.strategy())(body))
    )
    try:
        run()
    except _Abort:
        pass
    except AssertionError:
        pass
    except BaseException as e:  # pylint: disable=broad-except
        if found[1] is None:
            st["error"] = {"msg": traceback.format_exc()[-6000:], "case": None}
    if found[1] is not None:
        st["fail"] = {"case": found[1][1], "msg": found[1][2], "part": part.name}
    st["wall"] = time.monotonic() - start
    out.put(st)


def _disable_local_constants():
    """keep the case stream independent of the source text of loaded modules"""
    try:
        from hypothesis.internal.conjecture import providers

        empty = providers._local_constants.__class__()
        providers._get_local_constants = lambda: empty
    except Exception:  # pylint: disable=broad-except
        pass


def _proc(*args):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    q = args[-1]
    try:
        worker(*args)
    except BaseException:  # pylint: disable=broad-except
        q.put({"error": {"msg": traceback.format_exc()[-6000:], "case": None}})


def write_replay(prop, fail, seed):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, case_hash(fail["case"])))
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop,
                "part": fail["part"],
                "seed": seed,
                "message": fail["msg"],
                "case": fail["case"],
            },
            f,
            indent=1,
        )
    return path


def replay(prop, path):
    from . import boot  # noqa: F401

    mod = importlib.import_module("props." + prop.lower())
    with open(path) as f:
        doc = json.load(f)
    part = [p for p in mod.PARTS if p.name == doc["part"]][0]
    status, info = run_one(part, doc["case"], [])
    print(status, info.get("msg", ""))
    if status == "violation":
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0 if status in ("ok", "skip") else 2


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--part")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--stats", action="store_true")
    a = ap.parse_args(argv)
    prop = a.prop.upper()
    if a.setup:
        from . import boot, gen, engine  # noqa: F401

        print("framework imports")
        return 0
    if a.replay:
        return replay(prop, a.replay)
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.monotonic()
    _disable_local_constants()
    from . import boot  # noqa: F401

    mod = importlib.import_module("props." + prop.lower())
    known = [k for k in load_known() if k["property"] == prop]
    budget = a.budget or (260 if tier == "quick" else 780)
    parts = [
        (i, p) for i, p in enumerate(mod.PARTS) if a.part is None or p.name == a.part
    ]
    result = {
        "evaluations": 0,
        "hashes": set(),
        "skips": Counter(),
        "tags": Counter(),
        "known": Counter(),
        "samples": [],
    }
    per_part = {}
    fail = None
    error = None
    budget_hit = False

    # open known findings are replayed first: the line is printed when they still fail
    lines = []
    for k in known:
        if k.get("status") != "open":
            continue
        part = [p for p in mod.PARTS if p.name == k["part"]][0]
        status, info = run_one(part, k["case"], [])
        if status == "violation":
            lines.append(
                "KNOWN-FINDING: property=%s %s (%s)" % (prop, k["what"], k["id"])
            )
    # regression cases: plain replays of earlier shrunk failures
    reg = os.path.join(VERIF, "corpus", prop + ".json")
    nreg = 0
    if os.path.exists(reg) and a.part is None:
        with open(reg) as f:
            docs = json.load(f)
        byname = {p.name: p for p in mod.PARTS}
        for doc in docs:
            if doc["part"] not in byname:
                continue
            nreg += 1
            status, info = run_one(byname[doc["part"]], doc["case"], known)
            if status == "violation":
                fail = {"case": doc["case"], "msg": info["msg"], "part": doc["part"]}
                break
            if status == "error":
                error = {"msg": info["msg"], "case": doc["case"]}

    # one process per (part, share): shares sized so that all finish together
    ctx = mp.get_context("fork")
    if fail is None:
        jobs = []
        for i, p in parts:
            n = int((p.quick if tier == "quick" else p.thorough) * a.scale)
            if n <= 0:
                continue
            shares = min(WORKERS, max(1, n // 20))
            for w in range(shares):
                seed = zlib.crc32(
                    ("%s/%s/%s/%d/%d" % (prop, p.name, tier, w, a.seed)).encode()
                )
                jobs.append((i, w, (n + shares - 1) // shares, seed))
        queue = ctx.Queue()
        running = {}
        shrink_s = 45 if tier == "quick" else 90
        pending = list(jobs)
        done = 0
        total = len(jobs)
        deadline = t0 + budget
        while done < total:
            while pending and len(running) < WORKERS:
                i, w, n, seed = pending.pop(0)
                left = max(5.0, deadline - time.monotonic())
                # share the remaining time fairly between waves of jobs
                waves = 1 + len(pending) // WORKERS
                pr = ctx.Process(
                    target=_proc,
                    args=(prop, i, w, n, seed, left / waves, shrink_s, known, queue),
                )
                pr.start()
                running[pr.pid] = pr
            try:
                st = queue.get(timeout=1.0)
            except Exception:  # queue.Empty
                st = None
                for pid, pr in list(running.items()):
                    if not pr.is_alive():
                        if pr.exitcode not in (0, None):
                            error = error or {
                                "msg": "worker died with %s" % pr.exitcode,
                                "case": None,
                            }
                            done += 1
                        del running[pid]
                if (
                    time.monotonic() > deadline + shrink_s + 60
                ):  # a stuck case: no answer
                    error = error or {"msg": "worker stuck", "case": None}
                    break
                continue
            done += 1
            for pid, pr in list(running.items()):
                pr.join(0.01)
                if not pr.is_alive():
                    del running[pid]
            if "part" not in st:
                error = error or st["error"]
                break
            result["evaluations"] += st["evaluations"]
            result["hashes"] |= {st["part"] + ":" + h for h in st["hashes"]}
            for k in ("skips", "tags", "known"):
                result[k].update(st[k])
            pp = per_part.setdefault(
                st["part"], {"evaluations": 0, "nontrivial": 0, "wall": 0.0}
            )
            pp["evaluations"] += st["evaluations"]
            pp["nontrivial"] += len(st["hashes"])
            pp["wall"] = round(max(pp["wall"], st["wall"]), 1)
            if sum(1 for s in result["samples"] if s["part"] == st["part"]) < 2:
                result["samples"] += [
                    {"part": st["part"], "case": s} for s in st["samples"][:1]
                ]
            budget_hit = budget_hit or st["budget_hit"]
            if st["error"]:
                error = error or st["error"]
            if st["fail"]:
                fail = st["fail"]
                break
        for pr in running.values():
            if pr.is_alive():
                pr.terminate()
        for pr in running.values():
            pr.join(5)

    wall = round(time.monotonic() - t0, 2)
    rule = mod.RULE
    ev = {
        "property": prop,
        "tier": tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": result["evaluations"] + nreg,
            "distinct_nontrivial": len(result["hashes"]),
            "rule": rule,
            "samples": result["samples"][:8] or [{"note": "none kept"}],
            "per_part": per_part,
            "regression_cases": nreg,
            "skipped": dict(result["skips"].most_common(20)),
            "classes": dict(sorted(result["tags"].items())),
            "known_hits": dict(result["known"]),
            "stopped_by_time_budget": budget_hit,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": wall,
        "violations": 1 if fail else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for ln in lines:
        print(ln)
    print(
        "%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs%s"
        % (
            prop,
            tier,
            a.seed,
            ev["coverage"]["evaluations"],
            ev["coverage"]["distinct_nontrivial"],
            wall,
            " (time budget hit)" if budget_hit else "",
        )
    )
    if a.stats:
        print(json.dumps(per_part, indent=1))
        print("skips", dict(result["skips"]))
        print("tags", dict(sorted(result["tags"].items())))
    if fail:
        path = write_replay(prop, fail, a.seed)
        print(fail["msg"][:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if error:
        print("CHECK ERROR:", error["msg"])
        if error.get("case") is not None:
            print(json.dumps(error["case"])[:6000])
        return 2
    return 0
