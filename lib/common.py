"""Case generators and observations shared by the checks."""

from __future__ import annotations

import io

from lib.gen import Opt, Gen, dirty, features, gen_value, has_nan
from lib.model import Buf, Env, Eof, Reject, same
from lib.render import prog_text
from lib.sut import Fail, build, check, dump, load, norm, read_all, unnorm

TOP = ("st", "T")


def show_case(c):
    if isinstance(c, dict) and "p" in c:
        head = {k: c["p"][k] for k in ("endian", "align", "ptr")}
        own = {d["n"]: {k: d[k] for k in ("al", "mc")} for d in c["p"]["defs"] if "al" in d}
        if own:
            head["each"] = own
        rest = {k: v for k, v in c.items() if k != "p"}
        return f"{head}\n{prog_text(c['p'])}{rest!r}"
    return repr(c)


def prog_value(src, opt=None, maxcount=4):
    """-> program, environment, value of T, its encoding, data mask"""
    g = Gen(src, opt)
    p = g.prog()
    env = g.env
    v = gen_value(src, env, TOP, maxcount)
    raw, mask = env.dumps(TOP, v)
    return p, env, v, raw, mask


def modes(p):
    for compiled in (True, False):
        cs = load(p, compiled)
        yield compiled, cs, cs.T


def feats(env, extra=()):
    return [*sorted(features(env, TOP)), *extra]


def eq_masked(a, b, mask):
    return len(a) == len(b) and all((x ^ y) & m == 0 for x, y, m in zip(a, b, mask))


def expect(fn, *excs):
    """fn() must raise one of excs; returns the exception."""
    try:
        r = fn()
    except excs as e:
        return e
    raise Fail(f"no error but {r!r}")


def outcome(fn):
    """-> ("ok", value) or ("err", exception type name)"""
    try:
        return ("ok", fn())
    except (EOFError, ValueError, TypeError, ArithmeticError, KeyError, AttributeError, IndexError) as e:
        return ("err", type(e).__name__)


def buildable(env, t):
    """Can a value be put together by assignments without touching padding that only unions share?"""
    for x in env.walk(t):
        if x[0] in ("st", "inl") and env.sdef(x)["k"] == "union":
            d = env.sdef(x)
            if any(f["n"] is None for f in d["f"]) or any(m != 0xFF for m in env.umask(d)):
                return False
        if x[0] in ("st", "inl"):
            for f in env.sdef(x)["f"]:
                if f["n"] is None and env.sdef(f["t"])["k"] == "union":
                    u = env.sdef(f["t"])
                    for m in u["f"]:
                        n = env.size(m["t"])
                        if env.umask({"k": "union", "n": None, "f": [m]})[:n] != b"\xff" * n:
                            return False
    return True
