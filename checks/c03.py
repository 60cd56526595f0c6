"""C03: compiled and interpreted readers are observationally equivalent."""

import io

from dissect.cstruct import compiler, cstruct
from dissect.cstruct.types import BaseType
from dissect.cstruct.types.structure import Field

from lib import bigs, kinds
from lib.common import *
from lib.gen import PTRS
from lib.harness import Discard, Sub
from lib.render import prog_text

RULE = (
    "A case is a definition and an input (encoding with suffix, mutated encoding, random bytes) together with all its "
    "truncations; loaded compiled and interpreted. Non-trivial: the compiled class really has a generated reader, the input "
    "parses, and at least 4 bytes are consumed."
)
ASSUMPTIONS = [
    "no model is involved: the two readers of the code are compared with each other, plus truncated against complete input",
    "aligned structures start at aligned offsets (pointers to other addresses are not followed)",
    "a reader may refuse an input that lacks only trailing padding",
]


def sizes(obj):
    return {k: v for k, v in obj._sizes.items() if v}


def deref(env, t, o):
    """Outcomes of dereferencing every pointer of a value."""
    out = []
    if t[0] == "ptr":
        if env.align and int(o) % 16 and any(x[0] in ("st", "inl") for x in env.walk(t[1])):
            return []  # aligned structures live at aligned addresses

        def get():
            x = o.dereference()
            if t[1][0] in ("s", "enum", "flag"):
                return repr(norm(env, ("arr", t[1], ("z",)) if t[1] == ("s", "char") else t[1], x))
            if t[1][0] == "ptr":
                return int(x)
            return x.dumps() if env.size(t[1]) is not None else repr(x._sizes)

        try:
            out.append(("ok", get()))
        except Exception as e:
            out.append(("err", type(e).__name__))
    elif t[0] == "arr" and isinstance(o, list):
        for x in o:
            out += deref(env, t[1], x)
    elif t[0] in ("st", "inl"):
        for f in env.sdef(t)["f"]:
            out += deref(env, f["t"], o if f["n"] is None else getattr(o, f["n"])) if not f.get("b") else []
    return out


def observe(env, T, data, pos=0, pointers=True):
    fh = io.BytesIO(data)
    fh.seek(pos)
    try:
        obj = T.read(fh)
    except Exception as e:
        return ("err", type(e).__name__)
    end = fh.tell()
    out = {"value": norm(env, TOP, obj), "sizes": sizes(obj), "end": end, "repr": repr(obj)}
    if pointers:
        out["pointers"] = deref(env, TOP, obj)
        check(fh.tell() == end, "dereferencing moved the stream")
    try:
        out["dump"] = obj.dumps()
    except NotImplementedError:
        out["dump"] = None
    except Exception as e:
        out["dump"] = type(e).__name__
    return ("ok", out)


def agree(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "err":
        return a[1] == b[1]
    x, y = a[1], b[1]
    return same(x["value"], y["value"]) and all(x[k] == y[k] for k in x if k != "value")


def layout_of(T):
    return (T.size, T.alignment, T.dynamic, [(k, f.offset, f.bits, f.alignment, f.type.size) for k, f in T.fields.items()])


def load_both(p, text=None):
    c, i = load(p, True, text), load(p, False, text)
    return c, i


def compare_layouts(p, c, i):
    for d in p["defs"]:
        if d["k"] in ("struct", "union"):
            a, b = layout_of(getattr(c, d["n"])), layout_of(getattr(i, d["n"]))
            check(a == b, "layout of", d["n"], "compiled", a, "interpreted", b)


def compare(env, c, i, data, cuts, full=None):
    """Equal observations on data, and on truncations nothing that the complete input contradicts."""
    a, b = observe(env, c.T, data), observe(env, i.T, data)
    if full is None:
        ok = a[0] == b[0]
        check(ok or "EOFError" in (a[1], b[1]), "compiled", a, "interpreted", b)
        if ok and a[0] == "ok":
            check(agree(a, b), "compiled", a, "interpreted", b)
        if not ok:
            # one of them returned a value: nothing to contradict it on the padded input
            full = observe(env, i.T, data + b"\0" * 64), observe(env, c.T, data + b"\0" * 64)
            got = a if a[0] == "ok" else b
            check(full[0][0] == "ok" and same(full[0][1]["value"], got[1]["value"]), "value from a short input", got, full)
    for k in cuts:
        x, y = observe(env, c.T, data[:k], pointers=False), observe(env, i.T, data[:k], pointers=False)
        if x[0] == "ok" and y[0] == "ok":
            check(agree(x, y), "cut at", k, "compiled", x, "interpreted", y)
        elif x[0] != y[0]:
            got = x if x[0] == "ok" else y
            check("EOFError" in (x[1], y[1]), "cut at", k, "compiled", x, "interpreted", y)
            check(a[0] == "ok" and same(got[1]["value"], a[1]["value"]), "cut at", k, "value", got, "complete", a)
    return a


def gen_valid(src):
    p, env, v, raw, mask = prog_value(src, Opt(mixed=True, huge=True))
    data = dirty(src, raw, mask)
    suffix = src.bytes(src.int(0, 20))
    kind = src.int(0, 3)
    if kind == 3 and data:
        data = bytearray(data)
        for _ in range(src.int(1, 3)):
            data[src.int(0, len(data) - 1)] = src.int(0, 255)
        data = bytes(data)
    cuts = sorted({src.int(0, len(data)) for _ in range(4)} | {len(data) - 1 if data else 0})
    return {"p": p, "data": data + suffix, "cuts": cuts}


def run_diff(c):
    p = c["p"]
    env = Env(p)
    comp, interp = load_both(p)
    compare_layouts(p, comp, interp)
    check(env.defs["T"].get("mc") or not interp.T.__compiled__, "compiled although not requested")
    labels = feats(env)
    eof = "arr-eof" in labels
    cuts = [k for k in c["cuts"] if k <= len(c["data"])]
    a = compare(env, comp, interp, c["data"], [] if eof else cuts)
    if eof:
        for k in cuts:
            compare(env, comp, interp, c["data"][:k], [])
    if comp.T.__compiled__:
        labels.append("compiled")
        if a[0] == "ok":
            labels.append("parsed")
            if a[1]["end"] >= 4:
                labels.append("nontrivial")
    # byte order changes after loading
    if c.get("switch", True):
        for e in "<>":
            if e != p["endian"]:
                comp.endian = interp.endian = e
                env2 = Env({**p, "endian": e})
                x, y = observe(env2, comp.T, c["data"]), observe(env2, interp.T, c["data"])
                check(agree(x, y) or "EOFError" in (x[1], y[1]), "after switching to", e, "compiled", x, "interpreted", y)
    return labels


def gen_random(src):
    p = Gen(src, Opt(bang=False, huge=True)).prog()
    if src.bool(1, 6):
        p["endian"] = src.pick("@=")
    data = src.bytes(src.int(0, 90))
    if src.bool():
        data = bytes(x & 7 if x & 8 else 0 for x in data)
    return {"p": p, "data": data, "cuts": sorted({src.int(0, len(data)) for _ in range(2)}), "switch": p["endian"] in "<>"}


# unions with members of variable size are parsed as well (they just cannot be written)
def gen_dynunion(src):
    g = Gen(src, Opt(mixed=True, huge=True))
    p = g.prog()
    g.p = p
    u = {"k": "union", "n": "DU", "f": []}
    names = set()
    top = p["defs"].pop()
    for _ in range(src.int(1, 3)):
        u["f"].append({"n": g.fname(names), "t": g.typ(1, False, [], False), "b": None})
    p["defs"] += [u, top]
    top["f"].insert(src.int(0, 1) * len(top["f"]), {"n": "du", "t": ("st", "DU"), "b": None})
    data = src.bytes(src.int(0, 60))
    data = bytes(x & 7 if x & 8 else 0 for x in data)
    return {"p": p, "data": data, "cuts": []}


def run_kinds(c):
    p, env, v, raw, mask, data = kinds.case(c)
    comp, interp = load_both(p)
    compare_layouts(p, comp, interp)
    a = compare(env, comp, interp, data + b"\xa5", [len(data) - 1, len(data) // 2])
    check(a[0] == "ok" and same(a[1]["value"], v), "parsed", a, "expected", v)
    return ["nontrivial"] if comp.T.__compiled__ and len(data) >= 4 else []


class Odd(BaseType):
    """A type the source generator knows nothing about: a length byte and that many characters."""

    @classmethod
    def _read(cls, stream, context=None):
        n = stream.read(1)
        if not n:
            raise EOFError
        d = stream.read(n[0] & 3)
        if len(d) != n[0] & 3:
            raise EOFError
        return bytes(d)

    @classmethod
    def _write(cls, stream, data):
        return stream.write(bytes([len(data)]) + data)

    @classmethod
    def __default__(cls):
        return b""


class Quad(BaseType):
    """The same with a fixed size of 4 bytes."""

    @classmethod
    def _read(cls, stream, context=None):
        d = stream.read(4)
        if len(d) != 4:
            raise EOFError
        return d[::-1]

    @classmethod
    def _write(cls, stream, data):
        return stream.write(data[::-1])

    @classmethod
    def __default__(cls):
        return b"\0" * 4


def gen_fallback(src):
    p, env, v, raw, mask = prog_value(src, Opt(mixed=True, eof=False, maxfields=4, huge=True))
    return {
        "p": p, "data": bytes([src.int(0, 255)]) + src.bytes(3) + dirty(src, raw, mask) + src.bytes(8),
        "where": src.int(0, 3), "arr": src.int(0, 3),
    }  # fmt: skip


def run_fallback(c):
    p = c["p"]
    text = prog_text(p)
    decl = ["odd o_;", "odd o_[2];", "odd o_[1];", "odd *o_;"][c["arr"]]
    lines = text.rstrip("\n").split("\n")
    # the structure T is the last definition: insert after its first line or before its last one
    if c["where"] % 2:
        lines.insert(len(lines) - 1, "    " + decl)
    else:
        i = max(j for j, x in enumerate(lines) if x.endswith("{") and not x.startswith(" "))
        lines.insert(i + 1, "    " + decl)
    text = "\n".join(lines) + "\n"
    res, fell = [], []
    for compiled in (True, False):
        cs = cstruct(endian=p["endian"], pointer=p["ptr"])
        cs.add_custom_type("odd", *((Odd, None) if c["where"] < 2 else (Quad, 4)))
        cs.load(text, compiled=compiled, align=p["align"])
        fell += ["fellback"] if compiled and not cs.T.__compiled__ else []
        fh = io.BytesIO(c["data"])
        try:
            obj = cs.T.read(fh)
            res.append((repr(obj), fh.tell(), sizes(obj), layout_of(cs.T)))
        except (EOFError, OverflowError):
            res.append("EOF")
        except UnicodeDecodeError:
            raise Discard from None
    check(res[0] == res[1], "compiled", res[0], "interpreted", res[1])
    return ["nontrivial", *fell] if res[0] != "EOF" else ["eof", *fell]


def run_big(c):
    p, env, v, raw, mask, data = bigs.case(c)
    comp, interp = load_both(p)
    compare_layouts(p, comp, interp)
    n = len(data)
    a = compare(env, comp, interp, data + (b"" if c.get("form") == "o" else b"\xa5"), [n - 1, n // 2, n - n // 3])
    check(a[0] == "ok" and same(a[1]["value"], v), "parsed another value, case", c)
    return bigs.nontrivial(c) if comp.T.__compiled__ else []


# fields placed at offsets of their own (Field(offset=)): gaps, and fields that overlap earlier ones
def gen_offsets(src):
    p, env, v, raw, mask = prog_value(src, Opt(huge=True, eof=False, anon=src.bool(1, 3), maxfields=7, bits=src.bool(2, 3), lebs=src.bool(1, 4)))
    n = len(env.defs["T"]["f"])
    offs = [src.weighted([(3, None), (2, src.int(0, 24)), (1, 0)]) for _ in range(n)]
    data = src.bytes(src.int(20, 90))
    if src.bool():
        data = bytes(x & 7 if x & 8 else 0 for x in data)
    return {"p": p, "offs": offs, "data": data, "cuts": sorted({src.int(0, len(data)) for _ in range(2)}), "pos": src.pick([0, 0, 16, 48])}


def with_offsets(cs, env, c):
    """T again, with offsets; only fields that start a unit of bit-fields have one."""
    d, lay = env.defs["T"], env.layout(env.defs["T"])
    fields = []
    for f, sf, off, unit in zip(d["f"], cs.T.__fields__, c["offs"], lay["units"]):
        if f.get("b") and not unit[0]:
            off = None
        if off is not None and env.align:
            off = -(-off // sf.alignment) * sf.alignment
        fields.append(Field(f["n"], sf.type, f.get("b"), off))
    return cs._make_struct("T2", fields, align=env.align)


def run_offsets(c):
    p = c["p"]
    env = Env(p)
    comp, interp = load_both(p)
    C, T = compiler.compile(with_offsets(comp, env, c)), with_offsets(interp, env, c)
    check(layout_of(C)[:3] == layout_of(T)[:3], "layouts differ", layout_of(C), layout_of(T))
    labels = feats(env)
    data = b"\xa5" * c["pos"] + c["data"]
    a, b = observe(env, C, data, c["pos"]), observe(env, T, data, c["pos"])
    check(a[0] == b[0], "compiled", a, "interpreted", b)
    if a[0] == "ok":
        check(agree(a, b), "compiled", a, "interpreted", b)
        if C.__compiled__ and any(x is not None for x in c["offs"]):
            labels.append("nontrivial")
    for k in c["cuts"]:
        x = observe(env, C, data[: c["pos"] + k], c["pos"], pointers=False)
        y = observe(env, T, data[: c["pos"] + k], c["pos"], pointers=False)
        if x[0] == y[0] == "ok":
            check(agree(x, y), "cut at", k, "compiled", x, "interpreted", y)
        elif x[0] != y[0]:
            check("EOFError" in (x[1], y[1]), "cut at", k, "compiled", x, "interpreted", y)
    return labels


def subs():
    return [
        Sub("big", run_big, items=lambda t: bigs.items(t, 2 if t == "quick" else 1), rule="long arrays, wide and deeply nested structures"),
        Sub("kinds", run_kinds, items=kinds.items, rule="all sequences of up to 3 (thorough: 4) of 24 field kinds"),
        Sub("valid", run_diff, gen_valid, quick=8000, thorough=300000, show=show_case),
        Sub("random", run_diff, gen_random, quick=4000, thorough=150000, show=show_case),
        Sub("dynunion", run_diff, gen_dynunion, quick=1500, thorough=40000, show=show_case),
        Sub("offsets", run_offsets, gen_offsets, quick=4000, thorough=150000, show=show_case),
        Sub("fallback", run_fallback, gen_fallback, quick=1500, thorough=40000, show=show_case),
    ]
