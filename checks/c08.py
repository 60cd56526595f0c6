"""C08: truncated or failing input never fabricates data."""

import io

from dissect.cstruct import cstruct

from lib import bigs, kinds
from lib.common import *
from lib.gen import may_be_empty
from lib.harness import Discard, Sub
from lib.model import ALIASES, SCALARS, canon
from lib.render import prog_text
from lib.src import Source

RULE = (
    "A case is a definition and an input together with every cut point, and with a fault at every read call of a clean parse: "
    "a short read once, a short read that stays, or a raised error. Non-trivial: at least 3 cut or fault points were executed "
    "before the last data-carrying byte."
)
ASSUMPTIONS = [
    "the last data-carrying byte comes from the mask of lib/model.py; inputs that lack only padding may be refused or accepted",
    "to-end-of-stream arrays are compared with the model of the shortened input",
    "an element count of 2**63 bytes or more may raise OverflowError instead of EOFError",
]
LEVEL = "fault_enumeration"


class Boom(Exception):
    pass


class Faulty(io.RawIOBase):
    """Seekable stream with a fault at one of its read calls.

    mode 'short': that call delivers fewer bytes; 'stop': so do all later ones (end of input); 'raise': it raises.
    """

    def __init__(self, data, at=-1, mode="short", cut=0, exc=Boom):
        self.f = io.BytesIO(data)
        self.at, self.mode, self.cut, self.exc = at, mode, cut, exc
        self.n = 0
        self.calls = []
        self.hit = False

    def readable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        return self.f.tell()

    def seek(self, *a):
        return self.f.seek(*a)

    def read(self, n=-1):
        i, self.n = self.n, self.n + 1
        pos = self.f.tell()
        if n is None or n < 0:
            n = max(0, len(self.f.getbuffer()) - pos)
        if self.at < 0:
            self.calls.append((pos, n))
            return self.f.read(n)
        if i == self.at:
            if self.mode == "raise":
                self.hit = True
                raise self.exc("injected")
            if n:
                self.hit = True
                m = {0: 0, 1: n - 1, 2: n // 2}[self.cut]
                self.limit = pos + m
                return self.f.read(m)
        if self.mode == "stop" and self.hit:
            return self.f.read(max(0, min(n, self.limit - pos)))
        return self.f.read(n)

    def readinto(self, b):
        d = self.read(len(b))
        b[: len(d)] = d
        return len(d)


def last_data(mask):
    return next((i + 1 for i in range(len(mask) - 1, -1, -1) if mask[i]), 0)


def attempt(fn):
    try:
        return ("ok", fn())
    except EOFError:
        return ("eof", None)
    except Exception as e:
        return ("err", type(e).__name__)


def state(cs, T):
    """What later parses and constructions depend on."""
    return (T.size, T.alignment, T.dynamic, T.__compiled__, tuple((k, f.offset, f.bits) for k, f in T.fields.items()),
            tuple(sorted(k for k in cs.typedefs)), cs.endian)  # fmt: skip


def cuts_of(n, limit=120):
    return range(n) if n <= limit else sorted({*range(40), *range(n - 40, n), *range(40, n - 40, max(1, n // 40))})


def check_cut(env, t, k, need, full, got, labels, what):
    kind, val = got
    if k < need:
        check(kind == "eof", what, "cut at", k, "of needed", need, "gave", kind, repr(val))
    elif kind == "ok":
        check(same(val, full), what, "cut at", k, "value", val, "complete", full)


def run_cuts(c):
    p, v = c["p"], c["v"]
    env = Env(p)
    raw, mask = env.dumps(TOP, v)
    data = dirty(Source(seed=c["noise"]), raw, mask)
    labels = feats(env)
    if "arr-eof" in labels:
        return run_cuts_eof(p, env, v, data, labels)
    need = last_data(mask)
    done = 0
    for compiled, cs, T in modes(p):
        before = state(cs, T)
        d0 = attempt(lambda: T().dumps())
        full = norm(env, TOP, T(data))
        check(same(full, v), "complete input parsed as", full, "expected", v)
        for k in cuts_of(len(data)):
            form = (k + c["noise"]) % 4
            part = data[:k]
            if form == 0:
                fh = io.BytesIO(part)
                got = attempt(lambda: norm(env, TOP, T.read(fh)))
            elif form == 1:
                got = attempt(lambda: norm(env, TOP, T(memoryview(part))))
            elif form == 2:
                fh = io.BytesIO(b"#" * 16 + part)
                fh.seek(16)
                got = attempt(lambda: norm(env, TOP, cs.read("T", fh)))
            else:
                got = attempt(lambda: norm(env, TOP, T.reads(part)))
            check_cut(env, TOP, k, need, v, got, labels, f"compiled={compiled}")
            done += k < need
            if k % 5 == 0 or k == len(data) - 1:
                check(same(norm(env, TOP, T(data)), v), "after a failed parse at", k, norm(env, TOP, T(data)), "expected", v)
        check(state(cs, T) == before, "state changed by failed parses", state(cs, T), before)
        check(attempt(lambda: T().dumps()) == d0, "default changed by failed parses")
        check(same(norm(env, TOP, T(data)), v) and T(data).dumps() == raw, "after failed parses", T(data))
        # the other definitions, and arrays of the structure
        if need and not may_be_empty(env, TOP):
            two = data + data if not env.align or env.size(TOP) is not None else None
            if two and len(two) < 80:
                A = T[2]
                for k in range(len(two)):
                    got = attempt(lambda: norm(env, ("arr", TOP, ("n", 2)), A(two[:k])))
                    check_cut(env, TOP, k, len(data) + need, [v, v], got, labels, f"array compiled={compiled}")
    return [*labels, "nontrivial"] if done >= 3 else labels


def run_cuts_eof(p, env, v, data, labels):
    done = 0
    for compiled, cs, T in modes(p):
        for k in cuts_of(len(data) + 1):
            part = data[:k]
            got = attempt(lambda: norm(env, TOP, T(part)))
            try:
                exp, _, buf = env.parse(TOP, part)
            except Eof:
                check(got[0] == "eof", "cut at", k, "gave", got, "expected EOFError")
                done += 1
                continue
            if got[0] == "ok":
                check(same(got[1], exp), "cut at", k, "value", got[1], "expected", exp)
            else:
                check(got[0] == "eof" and buf.partial, "cut at", k, "gave", got, "expected", exp)
        check(same(norm(env, TOP, T(data)), v), "after failed parses", T(data))
    return [*labels, "nontrivial"] if done >= 3 else labels


def run_faults(c):
    p, v = c["p"], c["v"]
    env = Env(p)
    raw, mask = env.dumps(TOP, v)
    data = dirty(Source(seed=c["noise"]), raw, mask)
    labels = feats(env)
    need = last_data(mask)
    to_end = "arr-eof" in labels
    data += b"\x5a" * (0 if to_end else c["suffix"])
    done = 0
    for compiled, cs, T in modes(p):
        before = state(cs, T)
        clean = Faulty(data)
        full = norm(env, TOP, T.read(clean))
        check(same(full, v), "complete input parsed as", full, "expected", v)
        for at in range(min(clean.n, 50)):
            pos, n = clean.calls[at]
            for mode, cut in (("raise", 0), ("short", 0), ("short", 1), ("short", 2), ("stop", 0), ("stop", 1), ("stop", 2)):
                if cut == 2 and n < 3 or cut == 1 and n < 2:
                    continue
                if to_end and mode != "raise":
                    # where the input ends is where such an array ends
                    continue
                exc = [Boom, OSError, ValueError, OSError if to_end else EOFError][(at + cut) % 4]
                fh = Faulty(data, at, mode, cut, exc)
                got = attempt(lambda: norm(env, TOP, T.read(fh)))
                if not fh.hit:
                    continue
                what = f"compiled={compiled} {mode}/{cut} at read call {at} (offset {pos}, {n} bytes)"
                if mode == "raise":
                    check(got[0] != "ok", what, "returned", got)
                    check(exc is EOFError or got == ("err", exc.__name__), what, "raised", got, "expected", exc)
                    done += 1
                    continue
                if got[0] == "ok":
                    check(same(got[1], v), what, "returned", got[1], "complete", v)
                if mode == "stop" and fh.limit < need:
                    check(got[0] == "eof", what, "gave", got, "expected EOFError")
                    done += 1
            if at % 4 == 0:
                check(same(norm(env, TOP, T(data)), v), "after a failure at call", at, norm(env, TOP, T(data)), "expected", v)
        check(state(cs, T) == before, "state changed by failed parses")
        check(same(norm(env, TOP, T(data)), v), "after failures", norm(env, TOP, T(data)), "expected", v)
        check(T(data).dumps() == raw, "dump after failures", T(data).dumps(), "expected", raw)
    return [*labels, "nontrivial"] if done >= 3 else labels


def gen_cuts(src):
    eof = src.bool(1, 4)
    p, env, v, raw, mask = prog_value(src, Opt(mixed=True, eof=eof, maxfields=5))
    return {"p": p, "v": v, "noise": src.int(0, 1 << 60)}


def gen_faults(src):
    p, env, v, raw, mask = prog_value(src, Opt(mixed=True, eof=src.bool(1, 4), maxfields=5))
    return {"p": p, "v": v, "noise": src.int(0, 1 << 60), "suffix": src.int(0, 12)}


def run_kinds(c):
    p, env, v, raw, mask, data = kinds.case(c)
    need = last_data(mask)
    for compiled, cs, T in modes(p):
        for k in range(len(data)):
            got = attempt(lambda: norm(env, TOP, T(data[:k])))
            check_cut(env, TOP, k, need, v, got, [], f"compiled={compiled}")
        check(same(norm(env, TOP, T(data)), v), "after failed parses")
    return ["nontrivial"] if need >= 3 else []


# --- random input: whatever a count says, nothing is made up -------------------------------------------------------------
def gen_raw(src):
    p = Gen(src, Opt(mixed=True, huge=True, eof=False, wchars=src.bool(1, 4))).prog()
    data = src.bytes(src.int(0, 40))
    if src.bool():
        data = bytes(x if x & 5 else x & 3 for x in data)
    return {"p": p, "data": data}


def run_raw(c):
    p, data = c["p"], c["data"]
    env = Env(p)
    try:
        v, end, buf = env.parse(TOP, data)
    except Eof:
        # is it data that is missing, or only padding?
        try:
            _, _, buf = env.parse(TOP, data + bytes(64))
            missing = last_data(buf.mask) > len(data)
        except Eof:
            missing = True
        if not missing:
            raise Discard from None
        for compiled, cs, T in modes(p):
            try:
                o = T(data)
            except (EOFError, OverflowError, UnicodeDecodeError):
                continue
            raise Fail("returned", repr(o), "from", data, "compiled", compiled) from None
        return ["short", "nontrivial"]
    if has_nan(v):
        raise Discard
    for compiled, cs, T in modes(p):
        got = attempt(lambda: norm(env, TOP, T(data)))
        if got[0] == "ok":
            check(same(got[1], v), "parsed", got[1], "expected", v)
        else:
            check(got[0] == "eof" and end > len(data), "parsing", data, "gave", got, "expected", v)
    return ["complete"]


# --- scalars and arrays of them --------------------------------------------------------------------------------------
def scalar_items(tier):
    for name in [n for n in SCALARS if n != "void"]:
        for form in ("one", "n1", "n2", "n3", "z", "struct", "nested", "2d", "ptr", "enum", "bits", "union", "expr", "exprlast"):
            for e in "<>":
                yield {"name": name, "form": form, "e": e}


def run_scalar(c):
    name, form, e = c["name"], c["form"], c["e"]
    kind, size, _, _ = SCALARS[name]
    n = size or 3
    one = {"leb": b"\x85\x86\x07"}.get(kind) or (b"AB" if kind == "wchar" else bytes(range(1, 1 + n)))
    zero = b"\0" * (size or 1)
    cs = cstruct(endian=e, pointer="uint32")
    decl, raw = {
        "one": (None, one), "n1": ("{t} x[1];", one), "n2": ("{t} x[2];", one * 2), "n3": ("{t} x[3];", one * 3),
        "z": ("{t} x[];", one * 2 + zero), "struct": ("uint8 a; {t} x; uint8 b;", b"\1" + one + b"\2"),
        "nested": ("uint8 a; struct {{ {t} x; {t} y; }} s; uint8 b;", b"\1" + one * 2 + b"\2"),
        "2d": ("{t} x[2][2]; uint8 b;", one * 4 + b"\3"), "ptr": ("{t} *x;", b"\1\2\3\4"),
        "enum": ("E x; E y[2]; E z[];", one * 4 + zero), "bits": ("{t} x : 3; {t} y : 5;", one),
        "union": ("union {{ {t} x; uint8 y; }} u; uint8 b;", one + b"\3"),
        "expr": ("uint8 n; {t} x[n]; uint8 b;", b"\2" + one * 2 + b"\3"), "exprlast": ("uint8 n; {t} x[n + 1];", b"\2" + one * 3),
    }[form]  # fmt: skip
    integer = kind == "int"
    if form in ("enum", "bits") and not integer or form == "union" and size is None or form == "2d" and size is None:
        return []
    if form == "z" and kind == "float":
        return []
    text = f"enum E : {name} {{ A, B }};\n" if integer else ""
    for compiled in (True, False):
        cs = cstruct(endian=e, pointer="uint32")
        if decl:
            cs.load(text + "struct T { " + decl.format(t=name) + " };", compiled=compiled)
            T = cs.T
        else:
            T = getattr(cs, name)
        full = T(raw)
        need = len(raw)
        if form == "bits":
            # only the unit's first or last byte carries data
            need = 1 if e == "<" or size == 1 else 1
        for k in range(len(raw)):
            got = attempt(lambda: T(raw[:k]))
            if k < need:
                check(got[0] == "eof", form, name, "cut at", k, "of", raw, "gave", got)
            elif got[0] == "ok":
                check(got[1] == full, form, name, "cut at", k, "gave", got, "complete", full)
            check(T(raw) == full, "after a failed parse", T(raw), full)
        clean = Faulty(raw)
        T.read(clean)
        for at in range(clean.n):
            for mode, cut in (("raise", 0), ("stop", 0), ("stop", 1), ("short", 0), ("short", 1)):
                if cut and clean.calls[at][1] < 2:
                    continue
                fh = Faulty(raw, at, mode, cut)
                got = attempt(lambda: T.read(fh))
                if not fh.hit:
                    continue
                if got[0] == "ok":
                    check(mode != "raise" and got[1] == full, form, name, mode, "at call", at, "gave", got, "complete", full)
                if mode == "stop" and fh.limit < need:
                    check(got[0] == "eof", form, name, mode, "at call", at, "gave", got)
            check(T(raw) == full, "after a failure", T(raw), full)
    return ["nontrivial"]


def run_big(c):
    p, env, v, raw, mask, data = bigs.case(c)
    if c.get("form") == "o":
        raise Discard
    need = last_data(mask)
    n = len(data)
    src = Source(seed=repr(c))
    ks = {0, 1, n // 2, n // 3, need - 1, need - 2, need - 3, *(src.int(0, n - 1) for _ in range(4)), *(k + d for k in (256, 512, 1024, 4096, 8192, 65536) for d in (-1, 0, 1))}
    for compiled, cs, T in modes(p):
        for k in sorted(k for k in ks if 0 <= k < n):
            got = attempt(lambda: norm(env, TOP, T(data[:k])))  # noqa: B023
            check_cut(env, TOP, k, need, v, got, [], f"compiled={compiled}")
            fh = Short(data, k)
            got = attempt(lambda: norm(env, TOP, T.read(fh)))  # noqa: B023
            check_cut(env, TOP, k, need, v, got, [], f"compiled={compiled} stream")
        check(same(norm(env, TOP, T(data)), v), "after failed parses")
    return bigs.nontrivial(c)


class Short(io.BytesIO):
    """Ends after k bytes."""

    def __init__(self, data, k):
        super().__init__(data)
        self.k = k

    def read(self, n=-1):
        left = max(0, self.k - self.tell())
        return super().read(left if n is None or n < 0 else min(n, left))


def subs():
    return [
        Sub("big", run_big, items=lambda t: bigs.items(t, 2 if t == "quick" else 1), rule="long arrays, wide and deeply nested structures"),
        Sub("scalar", run_scalar, items=scalar_items, rule="scalars x 14 forms x every cut x every read call"),
        Sub("kinds", run_kinds, items=lambda t: kinds.items(t, 2), rule="all sequences of up to 2 (3) of 24 field kinds x every cut"),
        Sub("cuts", run_cuts, gen_cuts, quick=4000, thorough=150000, show=show_case),
        Sub("faults", run_faults, gen_faults, quick=2000, thorough=80000, show=show_case),
        Sub("raw", run_raw, gen_raw, quick=8000, thorough=300000, show=show_case),
    ]
