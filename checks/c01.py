"""C01: value round-trip and no silent alteration of integers."""

import io
import struct

from lib import bigs
from lib.common import *
from lib.gen import INTS, PTRS
from lib.harness import Discard, Sub
from lib.model import SCALARS
from lib.src import int_value

RULE = (
    "A case is a definition (random AST over the whole type algebra) with a value of it, or an integer that does not fit "
    "a field. Non-trivial: the encoding has at least 4 bytes and the structure at least two kinds of members; for "
    "rejections, the same structure accepts the nearest value that fits."
)
ASSUMPTIONS = [
    "equality of values is judged on plain numbers/bytes/strings obtained by attribute access and by the == of the code",
    "null-terminated arrays hold no zero element, wide strings no unpaired surrogates, floats no NaN",
]


def gen_roundtrip(src):
    p, env, v, raw, mask = prog_value(src)
    return {"p": p, "v": v}


def run_roundtrip(c):
    p, v = c["p"], c["v"]
    env = Env(p)
    raw, mask = env.dumps(TOP, v)
    labels = feats(env)
    for compiled, cs, T in modes(p):
        obj, end = read_all(T, raw)
        check(same(norm(env, TOP, obj), v), "parsed", norm(env, TOP, obj), "expected", v, "compiled", compiled)
        check(end == len(raw), "consumed", end, "of", len(raw), "compiled", compiled)
        d = obj.dumps()
        check(d == raw, "dumped", d, "expected", raw, "compiled", compiled)
        again, end = read_all(T, d)
        check(again == obj and not (again != obj), "re-parsed value differs", again, obj)
        check(end == len(d), "re-parse consumed", end, "of", len(d))
        if buildable(env, TOP):
            labels.append("built")
            made = build(env, T, TOP, v)
            check(same(norm(env, TOP, made), v), "built", norm(env, TOP, made), "expected", v)
            for d in (made.dumps(), T.dumps(made), bytes(made)):
                check(d == raw, "built value dumped", d, "expected", raw)
            out = io.BytesIO()
            n = T.write(out, made)
            check(out.getvalue() == raw, "written", out.getvalue(), "expected", raw)
            again = T(made.dumps())
            check(same(norm(env, TOP, again), v), "built, dumped and parsed", norm(env, TOP, again), "expected", v)
            check(again == made, "re-parsed value differs from the one built", again, made)
        # every field through its own type
        for f in env.defs["T"]["f"]:
            if f["n"] is None or f.get("b") or has_expr(f["t"]):
                continue
            ft = T.fields[f["n"]].type
            fraw, _ = env.dumps(f["t"], v[f["n"]])
            x = getattr(obj, f["n"])
            if f["t"][0] in ("st", "inl") and has_dyn_align(env, f["t"]):
                continue
            d = ft.dumps(x)
            check(d == fraw, "field", f["n"], "dumped", d, "expected", fraw)
            if isinstance(fraw, bytes):
                fh = io.BytesIO(d)
                y = ft.read(fh)
                check(same(norm(env, f["t"], y), v[f["n"]]), "field", f["n"], "re-parsed", y, "expected", v[f["n"]])
                check(fh.tell() == len(d), "field", f["n"], "consumed", fh.tell(), "of", len(d))
    if len(raw) >= 4 and len(set(labels) - {"le", "be", "packed", "aligned", "struct", "built"}) >= 2:
        labels.append("nontrivial")
    return labels


def has_expr(t):
    while t[0] == "arr":
        if t[2][0] == "e":
            return True
        t = t[1]
    return False


def has_dyn_align(env, t):
    return env.align and env.size(t) is None


# values obtained by parsing arbitrary bytes
def gen_parsed(src):
    g = Gen(src, Opt(mixed=True, huge=True, wchars=src.bool(1, 4)))
    p = g.prog()
    n = src.size(4, 64) + src.int(0, 60)
    kind = src.int(0, 3)
    data = src.bytes(n)
    if kind == 1:
        data = bytes(x & 3 for x in data)
    elif kind == 2:
        data = bytes(x if x & 1 else 0 for x in data)
    return {"p": p, "data": data}


def run_parsed(c):
    p, data = c["p"], c["data"]
    env = Env(p)
    try:
        v, end, buf = env.parse(TOP, data)
    except Eof:
        return feats(env, ["eof"])
    if has_nan(v) or buf.partial or end > len(data):  # (an input without the trailing padding may be refused)
        raise Discard
    labels = feats(env)
    for compiled, cs, T in modes(p):
        obj, got = read_all(T, data)
        check(same(norm(env, TOP, obj), v), "parsed", norm(env, TOP, obj), "expected", v, "compiled", compiled)
        check(got == end, "consumed", got, "expected", end)
        d = obj.dumps()
        again, n = read_all(T, d)
        check(same(norm(env, TOP, again), v), "re-parsed", norm(env, TOP, again), "expected", v, "dump", d)
        check(again == obj, "re-parsed value differs", again, obj)
        check(n == len(d), "re-parse consumed", n, "of", len(d))
    if end >= 4:
        labels.append("nontrivial")
    return labels


# --- integers that do not fit
HOLDERS = ["scalar", "field", "array", "zarray", "earray", "enum", "enumarr", "flag", "flagarr", "nested", "union",
           "assign", "enumfield"]  # fmt: skip


def reject_items(tier):
    for endian in "<>!":
        for name in INTS + ["pointer:" + x for x in PTRS]:
            u = name.partition(":")[2] or name
            _, size, signed, _ = SCALARS[u]
            w = 8 * size
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            bad = [lo - 1, hi + 1, hi + 2, (1 << w), (1 << w) + 1, -(1 << w), lo * 2 - 1, (1 << (w + 8)) + 5, 1 << 200]
            bad = sorted({x for x in bad if not lo <= x <= hi})
            for holder in HOLDERS:
                if ":" in name and holder not in ("field", "array", "nested", "union", "assign"):
                    continue
                yield {"endian": endian, "type": name, "holder": holder, "bad": bad, "good": [lo, hi]}


def run_reject(c):
    from dissect.cstruct import cstruct

    ptr = c["type"].startswith("pointer:")
    name = c["type"].partition(":")[2] if ptr else c["type"]
    decl = "void *" if ptr else name + " "
    h = c["holder"]
    text = f"""
    enum E : {name if not ptr else 'uint8'} {{ M0 = 1 }};
    flag F : {name if not ptr else 'uint8'} {{ N0 = 1 }};
    struct S {{ uint8 pre; {decl}x; uint8 post; }};
    struct A {{ uint8 pre; {decl}x[2]; uint8 post; }};
    struct N {{ uint8 pre; struct {{ uint8 q; {decl}x; }} s; }};
    union U {{ {decl}x; uint8 b; }};
    struct EF {{ uint8 n; {'E' if not ptr else 'uint8'} x; {'E' if not ptr else 'uint8'} y[n]; }};
    """
    for compiled in (True, False):
        cs = cstruct(endian=c["endian"], pointer=name if ptr else "uint32").load(text, compiled=compiled)
        t = cs.resolve(name)
        size = SCALARS[name][1]

        def attempt(v):
            if h == "scalar":
                return t.dumps(v)
            if h == "field":
                return cs.S(pre=1, x=v, post=2).dumps()
            if h == "array":
                return cs.A(pre=1, x=[1, v], post=2).dumps()
            if h == "zarray":
                return t[None].dumps([1, v, 1])
            if h == "earray":
                return t[3].dumps([1, v, 1])
            if h == "enum":
                return cs.E.dumps(cs.E(v))
            if h == "enumarr":
                return cs.E[2].dumps([cs.E(1), cs.E(v)])
            if h == "flag":
                return cs.F.dumps(cs.F(v))
            if h == "flagarr":
                return cs.F[None].dumps([cs.F(1), cs.F(v)])
            if h == "nested":
                return cs.N(pre=1, s=cs.N.fields["s"].type(q=1, x=v)).dumps()
            if h == "union":
                u = cs.U()
                u.x = v
                return u.dumps()
            if h == "assign":
                s = cs.S(b"\0" * len(cs.S))
                s.x = v
                return s.dumps()
            if h == "enumfield":
                return cs.EF(n=1, x=cs.E(1), y=[cs.E(v)]).dumps()
            raise AssertionError

        for v in c["good"]:
            d = attempt(v)
            enc = v.to_bytes(size, "little" if c["endian"] == "<" else "big", signed=v < 0)
            check(enc in d, h, "value", v, "encoded as", d, "without", enc)
        for v in c["bad"]:
            if h in ("flag", "flagarr") and v < 0 and not SCALARS[name][2]:
                continue  # negative numbers name the complement of a set of flags
            try:
                d = attempt(v)
            except Exception:
                continue
            raise Fail(f"{h} of {c['type']}: {v} was written as {d!r}")
    return ["nontrivial", h]


# an integer out of range at a random place of a random structure
def gen_badplace(src):
    g = Gen(src, Opt(mixed=True, lebs=False, eof=False))
    p = g.prog()
    env = g.env
    v = gen_value(src, env, TOP)
    places = list(int_places(env, TOP, v, ()))
    if not places:
        raise Discard
    path, t, bits = src.pick(places)
    w = bits or 8 * env.scalar(t)[1]
    signed = not bits and env.scalar(t)[2]
    hi = (1 << (w - 1)) - 1 if signed else (1 << w) - 1
    lo = -(1 << (w - 1)) if signed else 0
    up = src.bool() or t[0] == "flag" and not signed
    bad = hi + 1 + src.pick([0, 1, hi, hi * 3]) if up else lo - 1 - src.pick([0, 1, hi])
    return {"p": p, "v": v, "path": path, "bad": bad}


def int_places(env, t, v, path):
    d = env.sdef(t)
    for i, f in enumerate(d["f"]):
        x = v[env.key(d, i)]
        yield from places_of(env, f["t"], x, (*path, env.key(d, i)), f.get("b"))


def places_of(env, t, x, path, bits=None):
    if t[0] in ("enum", "flag", "ptr") or (t[0] == "s" and env.scalar(t)[0] == "int") or bits:
        yield path, t, bits
    elif t[0] == "arr" and not env.is_char(t[1]) and not env.is_wchar(t[1]):
        for i, y in enumerate(x):
            yield from places_of(env, t[1], y, (*path, i))
    elif t[0] in ("st", "inl") and env.sdef(t)["k"] == "struct":
        yield from int_places(env, t, x, path)


def put(v, path, x):
    if not path:
        return x
    if isinstance(v, dict):
        return {k: (put(y, path[1:], x) if k == path[0] else y) for k, y in v.items()}
    return [put(y, path[1:], x) if i == path[0] else y for i, y in enumerate(v)]


def run_badplace(c):
    p = c["p"]
    env = Env(p)
    if not buildable(env, TOP):
        raise Discard
    raw, _ = env.dumps(TOP, c["v"])
    bad = put(c["v"], c["path"], c["bad"])
    for compiled, cs, T in modes(p):
        check(build(env, T, TOP, c["v"]).dumps() == raw, "good value", build(env, T, TOP, c["v"]).dumps(), raw)
        try:
            d = build(env, T, TOP, bad).dumps()
        except Exception:
            continue
        raise Fail(f"{c['bad']} at {c['path']} was written: {d!r} (compiled {compiled})")
    return ["nontrivial", *feats(env)]


# --- values given as other kinds of Python objects: refused, or the value that is read back is the one given
class Idx:
    def __init__(self, v):
        self.v = v

    def __index__(self):
        return self.v

    def __repr__(self):
        return f"Idx({self.v})"


class MyInt(int):
    pass


def other_kinds(cs, t, endian):
    """(text, object, the plain value it stands for or None)"""
    lo, hi = {"uint8": (0, 255), "int8": (-128, 127), "uint16": (0, 65535), "int24": (-(1 << 23), (1 << 23) - 1), "uint128": (0, (1 << 128) - 1)}.get(t, (0, 1 << 30))
    ints = sorted({lo, lo + 1, 0, 1, 65, 127, 128, 200, 255, hi - 1, hi} | {x for x in (256, 0x141, 0x10041, 0x100, -1, -191) if lo <= x <= hi or t in ("char", "wchar")})
    for n in ints:
        wrap = [int, MyInt, Idx, float, str, lambda n: [n], lambda n: (n,)]
        if abs(n) < 1 << 62:
            wrap += [cs.int64]
        if 0 <= n < 256:
            wrap += [cs.uint8, cs.EB, cs.FB, lambda n: bytes([n]), lambda n: bytearray([n]), lambda n: memoryview(bytes([n])), chr, lambda n: cs.char(bytes([n]))]
        if 0 < n < 0xD000:
            wrap += [cs.wchar(chr(n).encode("utf-16-le" if endian == "<" else "utf-16-be")).__class__ and (lambda n: cs.wchar(chr(n).encode("utf-16-le" if endian == "<" else "utf-16-be")))]
        for w in wrap:
            yield (None if w is str else n), w(n)
    for b in (True, False):
        yield int(b), b
    for x in (1.5, "", b"", "65", {}, object(), 1e400, complex(1, 0)):
        yield None, x


def plain(t, x):
    """Value of a type t as a number, None if it is none."""
    if isinstance(x, (bytes, bytearray, memoryview)):
        return bytes(x)[0] if len(x) == 1 else None
    if isinstance(x, str):
        return ord(x) if len(x) == 1 else None
    return x if isinstance(x, float) else int(x)


OTHER = ["uint8", "int8", "uint16", "int24", "uint128", "char", "wchar", "E", "F", "EB", "float", "double", "uleb128", "ileb128", "p", "bits", "ebits"]


def other_items(tier):
    for t in OTHER:
        for endian in "<>":
            for place in ("scalar", "ctor", "assign", "array", "dynarray", "zarray", "nested", "union"):
                if place == "scalar" and t in ("p", "bits", "ebits"):
                    continue
                if "bits" in t and "array" in place or place == "union" and "leb" in t or (t, place) == ("p", "zarray"):
                    continue
                yield {"t": t, "endian": endian, "place": place}


def run_other(c):
    from dissect.cstruct import cstruct

    t, place = c["t"], c["place"]
    base = {"p": "uint8 *", "bits": "uint8 ", "ebits": "EB "}.get(t, t + " ")
    b = " : 5" if "bits" in t else ""
    dims = {"array": "[2]", "dynarray": "[n]", "zarray": "[]"}.get(place, "")
    text = f"""
    enum EB : uint8 {{ B0 = 1, B1 = 65 }};
    flag FB : uint8 {{ G0 = 1, G1 = 64 }};
    enum E : uint16 {{ M0 = 1, M1 = 65 }};
    flag F : int32 {{ N0 = 1, N1 = 64 }};
    struct T {{ uint8 n; {base}x{dims}{b}; uint8 post; }};
    struct O {{ uint8 n; T t; }};
    union U {{ {base}x{b}; uint8 raw[16]; }};
    """
    accepted = 0
    for compiled in (True, False):
        cs = cstruct(endian=c["endian"], pointer="uint16").load(text, compiled=compiled)
        two = "array" in place
        for n, x in other_kinds(cs, t, c["endian"]):
            val = [x, x] if two else x
            if two and t in ("char", "wchar") and isinstance(x, (str, bytes, bytearray)):
                val = x + x
            try:
                if place == "scalar":
                    d = cs.resolve(t).dumps(x)
                elif place == "assign":
                    o = cs.T(n=2, post=7)
                    o.x = x
                    d = o.dumps()
                elif place == "nested":
                    d = cs.O(n=1, t=cs.T(n=2, x=x, post=7)).dumps()
                elif place == "union":
                    o = cs.U()
                    o.x = x
                    d = o.dumps()
                else:
                    d = cs.T(n=2, x=val, post=7).dumps()
            except (TypeError, ValueError, ArithmeticError, AttributeError, struct.error, UnicodeError, LookupError):
                continue
            if t in ("char", "wchar") and isinstance(x, (str, bytes, bytearray, memoryview, list, tuple)) and len(x) != 1:
                continue  # several characters are written as given
            if t == "float" and isinstance(n, int) and abs(n) >= 1 << 24 or t == "double" and isinstance(n, int) and abs(n) >= 1 << 53 or x == 1e400:
                continue
            what = f"{x!r} ({type(x).__name__}) as {t} in {place}"
            R = {"scalar": lambda: cs.resolve(t), "nested": lambda: cs.O, "union": lambda: cs.U}.get(place, lambda: cs.T)()
            if "zarray" == place and plain(t, x) == 0:
                continue
            try:
                r, end = read_all(R, d)
            except Exception as e:
                raise Fail(f"{what} was written as {d!r}, which is not read: {e!r}")
            check(end == len(d), what, "was written as", d, "of which were read", end)
            if place == "nested":
                r = r.t
            if place != "scalar":
                check(place == "union" or r.post == 7 and r.n == 2, what, "was written as", d, "and read as", r)
                r = r.x
            want = plain(t, x) if n is None else n
            if want is None:
                raise Fail(f"{what} was written as {d!r}")
            for y in list(r) if two else [r]:
                check(plain(t, y) == want, what, "was written as", d, "and read as", y)
            check(not two or len(r) == 2, what, "was written as", d, "and read as", r)
            accepted += 1
    check(accepted > 4, "nothing was accepted")
    return ["nontrivial"]


def run_big(c):
    p, env, v, raw, mask, data = bigs.case(c)
    labels = run_roundtrip({"p": p, "v": v})
    return [x for x in labels if x != "nontrivial"] + bigs.nontrivial(c)


def subs():
    return [
        Sub("big", run_big, items=lambda t: bigs.items(t, 3 if t == "quick" else 1), rule="long arrays, wide and deeply nested structures"),
        Sub("reject", run_reject, items=reject_items, rule="every holder x integer type x endianness, boundary values"),
        Sub("other", run_other, items=other_items, rule="17 types x 8 places x kinds of Python objects: refused or read back as the value given"),
        Sub("roundtrip", run_roundtrip, gen_roundtrip, quick=6000, thorough=200000, show=show_case),
        Sub("parsed", run_parsed, gen_parsed, quick=4000, thorough=150000, show=show_case),
        Sub("badplace", run_badplace, gen_badplace, quick=2500, thorough=60000, show=show_case),
    ]
