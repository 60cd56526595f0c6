"""C15: concurrent parsing with shared types is equivalent to sequential parsing, under controlled thread schedules."""

import io
import os
import sys
import threading

import dissect.cstruct as _pkg
from dissect.cstruct import cstruct

from lib.common import *
from lib.gen import Values, lens
from lib.harness import Discard, Sub
from lib.model import expr_ids
from lib.render import prog_text
from lib.src import Source

RULE = (
    "Threads run under a scheduler that owns every switch: control can change at each source line (or bytecode) of the library, "
    "its generated code and the enum module. grid: fixed definitions x tasks x reader, every single preemption point and every "
    "pair (k, m) up to a bound. random: generated programs, 2 to 4 threads, random schedules, warm and cold types. Every result "
    "is compared with the result of running alone. Non-trivial: at least one switch while another thread is in the middle."
)
ASSUMPTIONS = [
    "switch points are lines (grid) or bytecodes (random, part) of Python code; C functions are atomic, as under the GIL",
    "threads use their own streams and instances and share only types",
]
ROOT = os.path.dirname(os.path.abspath(_pkg.__file__))
_TRACED = {}


def traced(fn):
    """Is this file part of the library, code generated by it, or the enum module it builds on?"""
    r = _TRACED.get(fn)
    if r is None:
        r = _TRACED[fn] = fn.startswith(("<compiled", "<string")) or os.path.abspath(fn).startswith(ROOT) or os.path.basename(fn) == "enum.py"
    return r


class Scheduler:
    """Runs functions in threads, one at a time; ``plan`` is a list of (steps, next thread) switches."""

    def __init__(self, fns, plan, opcodes=False):
        self.fns = fns
        self.plan = list(plan)
        self.n = len(fns)
        self.opcodes = opcodes
        self.sems = [threading.Semaphore(0) for _ in fns]
        self.finished = [False] * self.n
        self.results = [None] * self.n
        self.steps = [0] * self.n
        self.total = 0
        self.switches = 0
        self.free = False  # give up control: somebody waits for something that only another thread can do
        self.all = threading.Event()
        self.lock = threading.Lock()
        self.pos = 0
        self.left = self.plan[0][0] if self.plan else -1

    def trace(self, tid):
        def local(frame, event, arg):
            if event == "line" or event == "opcode":
                self.step(tid)
            return local

        def start(frame, event, arg):
            if not traced(frame.f_code.co_filename):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local

        return start

    def step(self, tid):
        self.steps[tid] += 1
        self.total += 1
        if self.left < 0 or self.free:
            return
        if self.left > 0:
            self.left -= 1
            return
        nxt = self.plan[self.pos][1]
        self.pos += 1
        self.left = self.plan[self.pos][0] if self.pos < len(self.plan) else -1
        cand = [(nxt + i) % self.n for i in range(self.n)]
        cand = [i for i in cand if not self.finished[i] and i != tid]
        if not cand:
            return
        self.switches += 1
        self.sems[cand[0]].release()
        self.sems[tid].acquire()

    def body(self, tid):
        self.sems[tid].acquire()
        sys.settrace(self.trace(tid))
        try:
            r = self.fns[tid]()
        except BaseException as e:  # noqa: BLE001
            r = ("crash", type(e).__name__, str(e))
        finally:
            sys.settrace(None)
        with self.lock:
            self.results[tid] = r
            self.finished[tid] = True
            rest = [i for i in range(self.n) if not self.finished[i]]
        if rest:
            self.sems[rest[0]].release()
        else:
            self.all.set()

    def run(self):
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        for t in threads:
            t.start()
        self.sems[0].release()
        last = -1
        while not self.all.wait(0.5):
            if self.total == last:
                # no progress: a lock is held by a paused thread, so let everybody run
                self.free = True
                for s in self.sems:
                    s.release()
            last = self.total
        for t in threads:
            t.join()
        return self.results


def alone(fn):
    s = Scheduler([fn], [])
    r = s.run()[0]
    check(not isinstance(r, tuple) or r[:1] != ("crash",), r)
    return r, s.steps[0]


# --- tasks -----------------------------------------------------------------------------------------------------------
def oc(fn):
    try:
        return ("ok", fn())
    except Exception as e:  # noqa: BLE001
        return ("err", type(e).__name__)


def pointers(env, d, o, out, depth=0):
    for f in d["f"]:
        if f["n"] is None:
            pointers(env, env.sdef(f["t"]), o, out, depth)
        elif f["t"][0] == "ptr":
            out.append(getattr(o, f["n"]))
        elif f["t"][0] in ("st", "inl"):
            pointers(env, env.sdef(f["t"]), getattr(o, f["n"]), out, depth + 1)


def recorded(o):
    """What the object remembers about the sizes of its fields, if it does."""
    return sorted((repr(k), v) for k, v in getattr(o, "_sizes", {}).items())


def task(env, cs, spec):
    """-> function without arguments that returns plain data; everything mutable in it belongs to one thread."""
    T = cs.T
    kind, raw, x = spec
    d = env.sdef(TOP)

    def parse(data, pos=0):
        fh = io.BytesIO(data)
        fh.seek(pos)
        o = T.read(fh)
        return o, fh.tell()

    if kind == "parse":
        def fn():
            o, end = parse(b"\xa5" * 16 + raw, 16)
            return norm(env, TOP, o), end, recorded(o)
    elif kind == "call":
        def fn():
            o = T(raw)
            return norm(env, TOP, o), recorded(o)
    elif kind == "short":
        def fn():
            return oc(lambda: norm(env, TOP, T(raw[: x % (len(raw) + 1)])))
    elif kind == "dump":
        o = T(raw)

        def fn():
            return o.dumps(), len(o), bytes(o)
    elif kind == "pdump":
        def fn():
            o = T(raw)
            out = io.BytesIO()
            o.write(out)
            return out.getvalue(), oc(lambda: hash(o) == hash(T(raw))), o == T(raw), bool(o), repr(o)
    elif kind == "default":
        def fn():
            o = T()
            return norm(env, TOP, o), o.dumps()
    elif kind == "array":
        def fn():
            return oc(lambda: [norm(env, TOP, o) for o in T[2](raw + raw + b"\0" * 16)])
    elif kind == "deref":
        def fn():
            o, _ = parse(raw + b"ABC\0" * 16)
            ps = []
            pointers(env, d, o, ps)
            return [(int(p), oc(lambda p=p: repr(p.dereference()))) for p in ps]
    elif kind == "assign":
        o = T(raw)

        def fn():
            for n in T.fields:
                v = getattr(o, n)
                if isinstance(v, int):
                    oc(lambda n=n, v=v: setattr(o, n, type(v)(x % 2) if hasattr(v, "value") else x % 2))
            return oc(lambda: norm(env, TOP, o)), oc(o.dumps)
    elif kind == "fields":
        def fn():
            out = []
            for n, f in T.fields.items():
                out.append((n, f.offset, f.bits, oc(lambda f=f: repr(f.type(raw))), oc(lambda f=f: repr(f.type.__default__()))))
                ne = getattr(f.type, "num_entries", None)
                if hasattr(ne, "evaluate"):
                    ctx = {k: (x >> 3 * i) % 8 for i, k in enumerate(T.fields)}
                    out.append(oc(lambda ne=ne, ctx=ctx: ne.evaluate(ctx)))
            return out
    elif kind == "enums":
        names = [q["n"] for q in env.p["defs"] if q["k"] in ("enum", "flag")]

        def fn():
            out = []
            for n in names:
                E = cs.resolve(n)
                for v in (x % 256, x % 3, x % 97, 1, 0):
                    e = E(v)
                    out.append((repr(e), int(e), str(e), e == E(v), oc(e.dumps), oc(lambda e=e, E=E: int(e | E(1)))))
            return out
    else:
        def fn():
            # definitions of other structures, and a few reads of scalars
            out = [int(cs.uint32((raw + b"\0")[:1] + b"\1\2\3")), int(cs.int24(b"\1\2\xff")), oc(lambda: cs.uleb128(b"\x80\x01")), cs.char[2](b"ab")]
            o = T(raw)
            out.append(cs.T[1](raw)[0] == o)
            return out
    return fn


KINDS = ["parse", "call", "short", "dump", "pdump", "default", "array", "deref", "assign", "fields", "enums", "misc"]


def compare(results, want, plan, what):
    for i, (r, w) in enumerate(zip(results, want)):
        check(repr(r) == repr(w), "thread", i, "obtained", repr(r)[:700], "alone it obtains", repr(w)[:700], "schedule", plan, what)


# --- grid: every preemption of small fixed programs ------------------------------------------------------------------
def F(n, t, b=None):
    return {"n": n, "t": t, "b": b}


def num(v):
    return ("num", v, str(v))


U8, U16, U32, CH = ("s", "uint8"), ("s", "uint16"), ("s", "uint32"), ("s", "char")
ID = ("id", "a")
E8 = {"k": "enum", "n": "E", "u": "uint8", "m": [("M0", None), ("M1", None)]}
FL = {"k": "flag", "n": "G", "u": "uint8", "m": [("N0", None), ("N1", None)]}
GRID = {
    "expr": ([F("a", U8), F("b", ("arr", CH, ("e", ("bin", "*", ID, num(2)))))], []),
    "expr2": ([F("a", U8), F("b", ("arr", U16, ("e", ("bin", "-", ("bin", "+", ID, num(3)), ("par", ("bin", "&", ID, num(1)))))))], []),
    "exprs": ([F("a", U8), F("n", U8), F("b", ("arr", U8, ("e", ("bin", "+", ID, ("id", "K0"))))), F("c", ("arr", CH, ("e", ("bin", "-", ("id", "n"), ID))))], []),
    "unary": ([F("a", ("s", "int8")), F("b", ("arr", U8, ("e", ("un", "-", ("un", "~", ID)))))], []),
    "bits": ([F("a", U8, 3), F("b", U8, 5), F("c", U16, 9), F("d", U16, 7)], []),
    "bitsexpr": ([F("a", U8, 2), F("b", U8, 6), F("c", ("arr", U8, ("e", ("bin", "+", ID, num(1)))))], []),
    "ebits": ([F("a", ("enum", "E"), 3), F("b", ("flag", "G"), 5), F("c", ("enum", "E")), F("g", ("flag", "G"))], [E8, FL]),
    "union": ([F("a", ("inl", {"k": "union", "n": None, "f": [F("p", U32), F("q", ("arr", U8, ("n", 4))), F("r", ("inl", {"k": "struct", "n": None, "f": [F("h", U8), F("l", U16)]}))]})), F("z", U8)], []),
    "anon": ([F("z", U8), F(None, ("inl", {"k": "union", "n": None, "f": [F("p", U16), F("q", ("arr", U8, ("n", 2)))]})), F(None, ("inl", {"k": "struct", "n": None, "f": [F("h", U8)]}))], []),
    "ptr": ([F("a", ("ptr", U32)), F("s", ("ptr", CH)), F("t", ("arr", ("ptr", U8), ("n", 2)))], []),
    "zero": ([F("a", ("arr", CH, ("z",))), F("w", ("arr", ("s", "wchar"), ("z",))), F("u", ("arr", U16, ("z",)))], []),
    "nest": ([F("a", U8), F("s", ("arr", ("st", "S0"), ("e", ID))), F("e", ("s", "uleb128"))], [{"k": "struct", "n": "S0", "f": [F("a", U8), F("d", ("arr", CH, ("e", ("bin", "%", ID, num(3)))))]}]),
    "wide": ([F("a", ("s", "uint24")), F("f", ("s", "float")), F("g", ("arr", ("s", "uint16"), ("n", 3))), F("h", ("s", "wchar"))], []),
    "eof": ([F("a", U8), F("b", ("arr", U16, ("eof",)))], []),
}  # fmt: skip
PAIRS = [("parse", "parse"), ("parse", "pdump"), ("dump", "parse"), ("pdump", "pdump"), ("short", "parse"), ("parse", "short"), ("fields", "parse"), ("assign", "dump"), ("deref", "deref"), ("default", "parse"), ("enums", "enums"), ("array", "parse")]


def grid_env(name, endian, align):
    fields, defs = GRID[name]
    p = {"endian": endian, "align": align, "ptr": "uint16", "consts": [("K0", 2)], "defs": [*defs, {"k": "struct", "n": "T", "f": fields}]}
    return p, Env(p)


def grid_value(env, name, i):
    s = Source(seed=f"{name}{i}")
    for _ in range(50):
        v = gen_value(s, env, TOP)
        if name == "nest" or not v.get("a") or (name in ("ptr",)):
            pass
        if name.startswith("expr") and not 0 < v["a"] < 5:
            continue
        if name == "exprs" and not v["a"] <= v["n"] <= v["a"] + 5:
            continue
        return v
    return v


def grid_case(c):
    name, compiled, align, (k0, k1), variant = c["name"], c["compiled"], c["align"], c["pair"], c["variant"]
    p, env = grid_env(name, "<>"[variant % 2], align)
    cs = load(p, compiled)
    specs = []
    for i, k in enumerate((k0, k1)):
        v = grid_value(env, name, variant * 2 + i)
        if name == "ptr":
            v = {**v, "a": 8 + i, "s": 12 + i}
        raw, _ = env.dumps(TOP, v)
        specs.append((k, raw, max(1, len(raw) - 1) + 7 * i))
    return p, env, cs, specs


def grid_items(tier):
    full = tier == "thorough"
    for name in GRID:
        for compiled in (False, True):
            for align in (False, True):
                if align and name == "eof":
                    continue
                for pi, pair in enumerate(PAIRS):
                    if pair[0] == "deref" and name != "ptr" or "enums" in pair and name != "ebits":
                        continue
                    for variant in range(4 if full else 1):
                        yield {"name": name, "compiled": compiled, "align": align, "pair": pair, "variant": variant + pi, "full": full}


def run_grid(c):
    p, env, cs, specs = grid_case(c)
    fresh = lambda cs=cs: [task(env, cs, s) for s in specs]  # noqa: E731
    want, steps = [], []
    for f in fresh(load(p, c["compiled"])):
        r, _ = alone(f)
        want.append(r)
    for f in fresh():
        r, n = alone(f)
        steps.append(n)
    n0, n1 = steps
    if not n0 or not n1:
        raise Discard
    full = c["full"]
    switched = 0
    # one preemption: the second thread runs to its end in the middle of the first; types never used before at first
    bound = 400 if full else 160
    s1 = max(1, n0 // bound + 1)
    for k in range(0, n0, s1):
        cold = load(p, c["compiled"]) if k % 5 == 0 else cs
        plan = [(k, 1)]
        s = Scheduler(fresh(cold), plan)
        compare(s.run(), want, plan, "cold" if cold is not cs else "")
        switched += s.switches
    # two preemptions: k lines of the first, m lines of the second, the rest of the first, the rest of the second
    budget = 6000 if full else 160
    src = Source(seed=repr(c))
    pairs = [(k, m) for k in range(n0) for m in range(n1)]
    if len(pairs) > budget:
        pairs = [pairs[src.int(0, len(pairs) - 1)] for _ in range(budget)]
    for k, m in pairs:
        plan = [(k, 1), (m, 0)]
        s = Scheduler(fresh(), plan)
        compare(s.run(), want, plan, "")
        switched += s.switches
    # three and more
    for _ in range(200 if full else 12):
        plan = [(src.int(0, max(1, min(n0, n1) // 3)), i % 2 ^ 1) for i in range(src.int(3, 20))]
        s = Scheduler(fresh(), plan)
        compare(s.run(), want, plan, "")
        switched += s.switches
    # nothing remains in the types
    for i, f in enumerate(fresh()):
        r = f()
        check(repr(r) == repr(want[i]), "afterwards task", i, "alone gives", r, "expected", want[i])
    return ["nontrivial", c["name"]] if switched else []


# --- random ----------------------------------------------------------------------------------------------------------
def gen_random(src):
    simple = src.bool()
    opt = Opt(mixed=True, maxfields=4 if simple else 6, helpers=1 if simple else 2, floats=src.bool())
    expr = src.bool()
    for _ in range(8):
        p, env, v, raw, mask = prog_value(src, opt)
        if not expr or "arr-e" in features(env, TOP):
            break
    n = src.weighted([(4, 2), (2, 3), (1, 4)])
    specs = []
    for _ in range(n):
        v = gen_value(src, env, TOP)
        raw, _ = env.dumps(TOP, v)
        specs.append((src.pick(KINDS), raw, src.int(0, 1 << 16)))
    plans = []
    for _ in range(src.int(2, 8)):
        opcodes = src.bool(1, 3)
        scale = src.pick([3, 10, 30, 100]) * (4 if opcodes else 1)
        plans.append((opcodes, src.bool(1, 3), [(src.int(0, scale), src.int(0, n - 1)) for _ in range(src.int(1, 12))]))
    return {"p": p, "specs": specs, "plans": plans, "compiled": src.bool()}


def run_random(c):
    p = c["p"]
    env = Env(p)
    cs = load(p, c["compiled"])
    ref = load(p, c["compiled"])
    want = [alone(task(env, ref, s))[0] for s in c["specs"]]
    for s, w in zip(c["specs"], want):
        if s[0] == "call":
            v, _, _ = env.parse(TOP, s[1])
            check(same(w[0], v), "alone", w, "expected", v)
    switched = 0
    for opcodes, cold, plan in c["plans"]:
        use = load(p, c["compiled"]) if cold else cs
        s = Scheduler([task(env, use, x) for x in c["specs"]], plan, opcodes)
        compare(s.run(), want, plan, f"opcodes={opcodes} cold={cold} compiled={c['compiled']}")
        switched += s.switches
    for i, x in enumerate(c["specs"]):
        r = task(env, cs, x)()
        check(repr(r) == repr(want[i]), "afterwards task", i, "alone gives", r, "expected", want[i])
    return [*feats(env), *(["nontrivial"] if switched else []), *{s[0] for s in c["specs"]}]


def subs():
    return [
        Sub("grid", run_grid, items=grid_items),
        Sub("random", run_random, gen_random, quick=2500, thorough=150000, show=show_case, shrinks=400),
    ]
