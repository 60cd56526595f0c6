"""Driver: generates cases in forked workers, shrinks the first failure, writes replay file and evidence."""

from __future__ import annotations

import hashlib
import itertools
import json
import multiprocessing as mp
import os
import re
import resource
import signal
import sys
import time
import traceback
from pathlib import Path

from lib.model import Eof, Reject
from lib.src import Overrun, Source, shrink
from lib.sut import Fail

VERIF = Path(__file__).resolve().parent.parent
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
CASE_CPU = 40  # seconds of CPU time for one case; ordinary cases take milliseconds


class Hang(BaseException):
    pass


class Discard(Exception):
    """The generated case is outside the domain of the property."""


class Sub:
    """One generated-input search.

    gen(src) -> case, or items(tier) -> iterable of cases (exhaustive enumeration of a finite space).
    run(case) -> iterable of labels; raises for a violation.  The label "nontrivial" marks cases that satisfy ``rule``.
    """

    def __init__(self, name, run, gen=None, items=None, quick=1000, thorough=20000, rule="", show=None, shrinks=1500):
        self.name = name
        self.run = run
        self.gen = gen
        self.items = items
        self.n = {"quick": quick, "thorough": thorough}
        self.rule = rule
        self.show = show or (lambda c: c)
        self.shrinks = shrinks


def case_seed(seed, sub, i):
    return int.from_bytes(hashlib.sha256(f"{seed}/{sub}/{i}".encode()).digest()[:8], "big")


def digest(case):
    return hashlib.blake2b(repr(case).encode("utf-8", "surrogatepass"), digest_size=8).digest()


def _alarm(*_):
    raise Hang("no result")


def guarded(sub, case, cpu=CASE_CPU):
    """Run one case -> (labels, None) or (None, failure message)."""
    labels, msg = attempt(sub, case, cpu)
    if msg is not None and msg.startswith("Hang: ") and cpu >= CASE_CPU:
        # a large case on a slow machine is no failure: once more, with ample time
        labels, msg = attempt(sub, case, 3 * cpu)
        if msg is None:
            labels.append("slow")
    return labels, msg


def attempt(sub, case, cpu):
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    try:
        labels = sub.run(case)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return list(labels or ()), None
    except (Discard, Reject, Overrun):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return ["discarded"], None
    except (Exception, Hang) as e:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if isinstance(e, Fail):
            msg = str(e)
        else:
            tb = traceback.extract_tb(e.__traceback__)
            where = " < ".join(f"{Path(x.filename).name}:{x.lineno} {x.name}" for x in tb[::-1][:6])
            try:
                what = f"no result after {cpu} s of CPU time" if isinstance(e, Hang) else str(e)
            except Exception:
                what = "?"
            msg = f"{type(e).__name__}: {what} [{where}]"
        return None, msg[:4000]
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    sys.setrecursionlimit(1200)


def make_case(sub, seed, i):
    src = Source(seed=case_seed(seed, sub.name, i))
    return sub.gen(src), src.rec


def _worker(sub, seed, n, w, deadline, q, first_fail, cur):
    _limits()
    st = {"runs": 0, "discarded": 0, "labels": {}, "distinct": set(), "samples": [], "fail": None, "cut": False, "slow": (0.0, -1)}
    try:
        if sub.items is not None:
            it = ((i, c) for i, c in enumerate(sub.items(n)) if i % WORKERS == w)
        else:
            it = ((i, None) for i in range(w, n, WORKERS))
        for i, case in it:
            if time.monotonic() > deadline:
                st["cut"] = True
                break
            if first_fail.value >= 0 and first_fail.value < i:
                break
            cur[w] = i
            choices = None
            if case is None:
                try:
                    case, choices = make_case(sub, seed, i)
                except (Reject, Overrun, Discard, Eof):
                    st["discarded"] += 1
                    continue
            t0 = time.process_time()
            labels, msg = guarded(sub, case)
            st["slow"] = max(st["slow"], (round(time.process_time() - t0, 2), i))
            if msg is not None:
                st["fail"] = (i, case, choices, msg)
                with first_fail.get_lock():
                    if first_fail.value < 0 or i < first_fail.value:
                        first_fail.value = i
                break
            if "discarded" in labels:
                st["discarded"] += 1
                continue
            st["runs"] += 1
            for x in labels:
                st["labels"][x] = st["labels"].get(x, 0) + 1
            if "nontrivial" in labels:
                st["distinct"].add(digest(case))
                if len(st["samples"]) < 2 and (i // WORKERS) % 7 == 3 or not st["samples"]:
                    st["samples"].append(show(sub, case))
    except BaseException as e:  # noqa: BLE001
        st["error"] = "".join(traceback.format_exception(e))[-4000:]
    q.put((w, st))


def show(sub, case):
    s = sub.show(case)
    return s if isinstance(s, str) and len(s) < 900 else repr(s)[:900]


def _shrink_worker(sub, choices, q):
    _limits()
    t0 = time.monotonic()

    def fails(cand):
        if time.monotonic() - t0 > 60:
            return None
        src = Source(choices=cand)
        try:
            case = sub.gen(src)
        except Exception:
            return None
        labels, msg = guarded(sub, case, cpu=5)
        return list(src.rec) if msg is not None else None

    try:
        best = fails(list(choices))
        if best is None:
            q.put(None)
            return
        q.put(("base", best))
        q.put(("done", shrink(best, fails, sub.shrinks)))
    except BaseException:  # noqa: BLE001
        pass


def _in_child(fn, args, timeout):
    """Run fn(*args, queue) in a forked child and return what it put on the queue, within a time limit."""
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    p = ctx.Process(target=fn, args=(*args, q), daemon=True)
    p.start()
    out, end = [], time.monotonic() + timeout
    while time.monotonic() < end:
        try:
            out.append(q.get(timeout=0.2))
        except Exception:
            if not p.is_alive():
                break
            continue
        if out[-1] is None or out[-1][0] == "done":
            break
    try:
        while True:
            out.append(q.get(timeout=0.1))
    except Exception:
        pass
    p.kill()
    p.join()
    return out


def _one(sub, case, q):
    _limits()
    labels, msg = guarded(sub, case)
    q.put(("done", msg))


def run_alone(sub, case):
    got = _in_child(_one, (sub, case), CASE_CPU * 5)
    return got[-1][1] if got and got[-1] else "no answer (killed or out of time)"


def run_sub(sub, seed, tier, deadline):
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    first = ctx.Value("q", -1)
    cur = ctx.Array("q", [-1] * WORKERS)
    n = tier if sub.items is not None else sub.n[tier]
    procs = [ctx.Process(target=_worker, args=(sub, seed, n, w, deadline, q, first, cur), daemon=True) for w in range(WORKERS)]
    for p in procs:
        p.start()
    res, hard = {}, deadline + 60
    while len(res) < WORKERS:
        try:
            w, st = q.get(timeout=0.5)
            res[w] = st
            continue
        except Exception:
            pass
        if time.monotonic() > hard:
            break
        dead = [w for w, p in enumerate(procs) if w not in res and not p.is_alive()]
        if dead:
            try:
                while True:
                    w, st = q.get(timeout=1)
                    res[w] = st
            except Exception:
                pass
            for w in dead:
                res.setdefault(w, {"died": procs[w].exitcode, "at": cur[w]})
    for w, p in enumerate(procs):
        if p.is_alive():
            if w not in res:
                res[w] = {"died": "stuck", "at": cur[w]}
            p.kill()
        p.join()
    return res


def nth_case(sub, seed, i):
    if sub.items is not None:
        for j, c in enumerate(sub.items("quick")):
            if j == i:
                return c, None
    return make_case(sub, seed, i)


def write_replay(prop, sub, data):
    d = VERIF / "replays"
    d.mkdir(exist_ok=True)
    path = d / f"{prop}-{sub}.txt"
    path.write_text(repr(data) + "\n", encoding="utf-8", errors="surrogatepass")
    return path


def load_replay(path):
    env = {"inf": float("inf"), "nan": float("nan")}
    return eval(Path(path).read_text(encoding="utf-8", errors="surrogatepass"), {"__builtins__": {}}, env)


def findings(prop):
    """-> {finding id: text} of the known findings of this property."""
    out = {}
    for line in (VERIF / "known_findings.txt").read_text().splitlines():
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
        if m and m[1] == prop:
            out[m[2]] = m[3]
    return out


def main(prop, mod, argv):
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    subs = mod.subs()
    by_name = {s.name: s for s in subs}
    if "--replay" in argv:
        return replay(prop, by_name, argv[argv.index("--replay") + 1])
    if "--sub" in argv:
        subs = [by_name[x] for x in argv[argv.index("--sub") + 1].split(",")]
    scale = float(argv[argv.index("--scale") + 1]) if "--scale" in argv else 1.0
    budget = {"quick": 420, "thorough": 6 * 3600}[tier]
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": mod.RULE, "samples": [], "subs": {}}
    violations = []
    error = None
    for s in subs:
        if s.items is None:
            s.n = {k: max(8, int(v * scale)) for k, v in s.n.items()}
        elif scale < 1:
            s.items = lambda t, items=s.items: itertools.islice(items(t), 0, None, round(1 / scale))
        ts = time.monotonic()
        res = run_sub(s, seed, tier, min(t0 + budget, ts + budget))
        info = {"evaluations": 0, "discarded": 0, "distinct_nontrivial": 0, "labels": {}, "rule": s.rule,
                "exhaustive": s.items is not None, "wall_s": round(time.monotonic() - ts, 1)}  # fmt: skip
        distinct, fails = set(), []
        for w in range(WORKERS):
            st = res.get(w)
            if st is None or "died" in st:
                # killed (out of memory or stuck in C code): nothing can be concluded from this worker
                at = (st or {}).get("at", -1)
                try:
                    case, choices = nth_case(s, seed, at)
                    msg = run_alone(s, case) if at >= 0 else None
                except Exception:
                    msg = None
                if msg is not None:
                    fails.append((at, case, None, msg))
                else:
                    error = error or f"{s.name}: worker {w} gave no answer ({st})"
                continue
            if "error" in st:
                error = error or f"{s.name}: {st['error']}"
            info["evaluations"] += st["runs"]
            info["discarded"] += st["discarded"]
            for k, v in st["labels"].items():
                info["labels"][k] = info["labels"].get(k, 0) + v
            distinct |= st["distinct"]
            info["slowest_case_cpu_s"] = max(info.get("slowest_case_cpu_s", 0), st["slow"][0])
            if st["cut"]:
                info["cut_by_time_budget"] = True
                info["exhaustive"] = False
            if st["fail"]:
                fails.append(st["fail"])
            if len(cov["samples"]) < 12 and st["samples"] and w < 2:
                cov["samples"].append({"sub": s.name, "case": st["samples"][-1]})
        info["distinct_nontrivial"] = len(distinct)
        info["labels"] = dict(sorted(info["labels"].items()))
        cov["evaluations"] += info["evaluations"]
        cov["distinct_nontrivial"] += info["distinct_nontrivial"]
        cov["subs"][s.name] = info
        if fails:
            violations.append(report(prop, s, seed, min(fails, key=lambda f: f[0])))
            break
        if "--verbose" in argv:
            print(f"  {s.name}: {json.dumps(info)}", flush=True)
        if error:
            break
    # known findings: replayed on every run, reported but not fatal while they are listed
    known = findings(prop)
    for fid, fn in getattr(mod, "FINDINGS", {}).items():
        if violations:
            break
        msg = fn()
        if msg and fid in known:
            print(f"KNOWN-FINDING: property={prop} {known[fid]}")
        elif msg:
            path = write_replay(prop, fid, {"property": prop, "sub": None, "finding": fid, "message": msg})
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {msg}")
            violations.append(path)
    if any(i.get("discarded", 0) > 4 * max(1, i["evaluations"]) for i in cov["subs"].values()) and not violations:
        error = error or "a generator discards almost everything: " + str(
            {k: (v["evaluations"], v["discarded"]) for k, v in cov["subs"].items()}
        )
    if all(i["exhaustive"] for i in cov["subs"].values()) and not error:
        cov["exhaustive"] = True
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"), "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.monotonic() - t0, 1),
        "violations": len(violations),
    }  # fmt: skip
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, ensure_ascii=True) + "\n")
    print(f"{prop}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial, {ev['wall_s']} s")
    if violations:
        return 1
    if error:
        print(f"ERROR {error}", file=sys.stderr)
        return 2
    return 0


def report(prop, s, seed, fail):
    i, case, choices, msg = fail
    data = {"property": prop, "sub": s.name, "seed": seed, "index": i, "message": msg, "case": case}
    alone = run_alone(s, case)
    if alone is None:
        # depends on the cases that ran before it in the same process: the replay is that history
        data["history"] = True
        data["message"] = f"only after the preceding cases of its shard: {msg}"
    elif choices is not None:
        got = [x for x in _in_child(_shrink_worker, (s, choices), 75) if x]
        if got:
            src = Source(choices=got[-1][1])
            try:
                small = s.gen(src)
                m = run_alone(s, small)
                if m is not None:
                    data.update(case=small, message=m, choices=list(src.rec))
            except Exception:
                pass
    path = write_replay(prop, s.name, data)
    print(f"VIOLATION property={prop} replay={path}")
    print(f"  [{s.name} #{i}] {data['message']}")
    print("  case: " + show(s, data["case"]).replace("\n", "\n  "), flush=True)
    return path


def _history(sub, seed, upto, q):
    _limits()
    msg = None
    items = enumerate(sub.items("quick")) if sub.items is not None else ((i, None) for i in range(upto + 1))
    for i, case in items:
        if i % WORKERS != upto % WORKERS or i > upto:
            continue
        try:
            case = case if case is not None else make_case(sub, seed, i)[0]
        except Exception:
            continue
        _, msg = guarded(sub, case)
        if msg is not None:
            break
    q.put(("done", msg))


def replay(prop, by_name, path):
    data = load_replay(path)
    if data.get("finding"):
        print(data["message"])
        return 1
    s = by_name[data["sub"]]
    print(show(s, data["case"]))
    if data.get("history"):
        got = _in_child(_history, (s, data["seed"], data["index"]), 1800)
        msg = got[-1][1] if got else "no answer"
    else:
        msg = run_alone(s, data["case"])
    if msg is None:
        print("does not fail")
        return 0
    print(f"VIOLATION property={prop} replay={path}")
    print(f"  {msg}")
    return 1
