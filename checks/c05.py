"""C05: scalar codecs implement the standard encodings under the current endianness."""

import io
import math
import struct
import sys

from dissect.cstruct import cstruct

from lib.common import *
from lib.gen import FLOATS, INTS, Values
from lib.harness import Discard, Sub
from lib.model import ALIASES, FLOAT_FMT, SCALARS, canon, leb_encode
from lib.render import prog_text
from lib.src import int_value

RULE = (
    "Exhaustive: every value of every 1- and 2-byte type, every LEB128 sequence of up to 2 bytes, every integer from -70000 to "
    "70000 as LEB128. Generated: wide integers, bit patterns of floats, UTF-16 text, arrays, and histories of byte-order changes "
    "on loaded programs. Non-trivial: more than one byte, or an exhaustive block."
)
ASSUMPTIONS = [
    "oracles: int.from_bytes/to_bytes, struct e/f/d, the utf-16-le/be codecs, an independent LEB128 encoder/decoder",
    "NaN payloads are compared as NaN only; unpaired surrogates are not generated",
]
NATIVE = "<" if sys.byteorder == "little" else ">"
ENDIANS = "<>!@="


def eff(e):
    return NATIVE if e in "@=" else "<" if e == "<" else ">"


def decode(name, e, raw):
    """Independent decoding of one fixed-size scalar."""
    kind, size, signed, _ = SCALARS[canon(name)]
    e = eff(e)
    if kind == "int":
        u = 0
        for b in raw if e == ">" else raw[::-1]:
            u = u * 256 + b
        return u - (1 << 8 * size) if signed and u >= 1 << 8 * size - 1 else u
    if kind == "float":
        return struct.unpack(e + FLOAT_FMT[size], raw)[0]
    if kind == "char":
        return raw
    return raw.decode("utf-16-le" if e == "<" else "utf-16-be")


def encode(name, e, v):
    kind, size, signed, _ = SCALARS[canon(name)]
    e = eff(e)
    if kind == "int":
        u = v % (1 << 8 * size)
        raw = bytes((u >> 8 * i) & 255 for i in range(size))
        return raw if e == "<" else raw[::-1]
    if kind == "float":
        return struct.pack(e + FLOAT_FMT[size], v)
    if kind == "char":
        return v
    return v.encode("utf-16-le" if e == "<" else "utf-16-be")


def equal(a, b):
    if isinstance(b, float):
        return (math.isnan(a) and math.isnan(b)) or struct.pack("<d", a) == struct.pack("<d", b)
    return a == b


SMALL = [n for n, (k, s, _, _) in SCALARS.items() if s in (1, 2)]


def small_items(tier):
    for n in SMALL:
        for e in ENDIANS:
            yield {"name": n, "endian": e}


def run_small(c):
    name, e = c["name"], c["endian"]
    kind, size, signed, _ = SCALARS[name]
    cs = cstruct(endian=e)
    T = getattr(cs, name)
    vals = []
    for i in range(256**size):
        raw = i.to_bytes(size, "big")
        if kind == "wchar" and 0xD800 <= i < 0xE000:
            continue
        if kind == "wchar" and eff(e) == "<":
            raw = raw[::-1]
        v = decode(name, e, raw)
        got = T(raw)
        check(equal(got, v), name, "endian", e, "decodes", raw, "as", repr(got), "expected", v)
        if not (kind == "float" and math.isnan(v)):
            d = T.dumps(v)
            check(d == raw, name, "endian", e, "encodes", v, "as", d, "expected", raw)
            if i % 7 == 0:
                check(T.dumps(got) == raw, name, "parsed value dumps", T.dumps(got), "expected", raw)
            vals.append((raw, v))
    for n in (3, 256):
        for i in range(0, len(vals), n * (1 if size == 1 else 16)):
            part = vals[i : i + n]
            check_array(cs, T, name, e, [x[1] for x in part], b"".join(x[0] for x in part))
    return ["nontrivial"]


def joined(kind, vs):
    return b"".join(vs) if kind == "char" else "".join(vs) if kind == "wchar" else vs


def check_array(cs, T, name, e, vs, raw):
    kind = SCALARS[canon(name)][0]
    n = len(vs) if kind != "wchar" else len(raw) // 2
    v = joined(kind, vs)
    A = T[n]
    got = A(raw)
    check(len(got) == len(v) and all(equal(x, y) for x, y in zip(got, v)), name, n, "endian", e, "array", raw, "is", repr(got), "expected", v)
    check(A.dumps(v) == raw, name, n, "endian", e, "array dumps", A.dumps(v), "expected", raw)
    if kind in ("char", "wchar"):
        ok = "\0" not in v if kind == "wchar" else b"\0" not in v
    else:
        ok = all(v)
    if ok:
        z = raw + b"\0" * SCALARS[canon(name)][1]
        Z = T[None]
        fh = io.BytesIO(z + b"\x01\x02\x03")
        got = Z.read(fh)
        check(len(got) == len(v) and all(equal(x, y) for x, y in zip(got, v)), name, "null-terminated", z, "is", repr(got), "expected", v)
        check(fh.tell() == len(z), name, "null-terminated consumed", fh.tell(), "of", len(z))
        check(Z.dumps(v) == z, name, "null-terminated dumps", Z.dumps(v), "expected", z)


WIDE = [n for n, (k, s, _, _) in SCALARS.items() if s and s > 1]


def gen_wide(src):
    name = src.pick(WIDE)
    spelled = src.pick([name] + [a for a, t in ALIASES.items() if t == name]) if src.bool(1, 3) else name
    kind, size, signed, _ = SCALARS[name]
    n = src.int(1, 6)
    if kind == "int":
        vs = [int_value(src, 8 * size, signed) for _ in range(n)]
    elif kind == "float":
        vs = []
        for _ in range(n):
            f = src.int(0, 3)
            raw = src.bytes(size)
            if f == 1:
                raw = struct.pack("<" + FLOAT_FMT[size], src.int(-40, 40) / 8)
            elif f == 2:
                raw = src.pick([b"\0" * size, b"\0" * (size - 1) + b"\x80", b"\1" + b"\0" * (size - 1),
                                struct.pack("<" + FLOAT_FMT[size], math.inf), struct.pack("<" + FLOAT_FMT[size], -math.inf)])  # fmt: skip
            v = struct.unpack("<" + FLOAT_FMT[size], raw)[0]
            vs.append(0.5 if math.isnan(v) else v)
    else:
        env = Env({"endian": "<", "align": False, "ptr": "uint32", "defs": [], "consts": []})
        vs = list(Values(src, env).wtext(n))
    return {"name": spelled, "endian": src.pick(ENDIANS), "vs": vs}


def run_wide(c):
    e, name = c["endian"], c["name"]
    cs = cstruct(endian=e)
    T = cs.resolve(name)
    raws = [encode(name, e, v) for v in c["vs"]]
    for v, raw in zip(c["vs"], raws):
        if SCALARS[canon(name)][0] == "wchar" and len(raw) != 2:
            continue
        fh = io.BytesIO(raw + b"\x55")
        got = T.read(fh)
        check(equal(got, v) and fh.tell() == len(raw), name, "endian", e, "decodes", raw, "as", repr(got), "expected", v)
        check(T.dumps(v) == raw, name, "endian", e, "encodes", v, "as", T.dumps(v), "expected", raw)
    check_array(cs, T, name, e, c["vs"], b"".join(raws))
    return ["nontrivial", canon(name)]


# --- names -----------------------------------------------------------------------------------------------------------
def name_items(tier):
    for a in [*SCALARS, *ALIASES]:
        yield {"name": a}


def run_names(c):
    name = c["name"]
    kind, size, signed, _ = SCALARS[canon(name)]
    for e in ENDIANS:
        cs = cstruct(endian=e)
        T = cs.resolve(name)
        check(T is cs.resolve(canon(name)), name, "is not", canon(name))
        check(T.size == size, name, "size", T.size)
        cs.load(f"struct T {{ {name} a; {name} b[3]; uint8 c; }};", compiled=True)
        cs.load(f"struct I {{ {name} a; {name} b[3]; uint8 c; }};", compiled=False)
        if kind == "void":
            continue
        if kind == "leb":
            one = [0x80 | 0x35, 0x7F if e == "<" else 0x3F]
            raw = bytes(one * 4) + b"\x09"
            v = one[0] & 127 | one[1] << 7
            v -= (1 << 14) if signed and one[1] & 64 else 0
            exp = (v, [v] * 3, 9)
        else:
            part = bytes(range(0x81, 0x81 + size))
            raw = part * 4 + b"\x09"
            v = decode(name, e, part)
            exp = (v, joined(kind, [v] * 3), 9)
        for t in (cs.T, cs.I):
            o = t(raw)
            check((o.a, o.b, o.c) == exp, name, "endian", e, "parsed", (o.a, o.b, o.c), "expected", exp)
            check(o.dumps() == raw, name, "endian", e, "dumped", o.dumps(), "expected", raw)
    return ["nontrivial"]


# --- LEB128 ----------------------------------------------------------------------------------------------------------
def leb_decode(raw, signed):
    v = sum((b & 0x7F) << 7 * i for i, b in enumerate(raw))
    if signed and raw[-1] & 0x40:
        v -= 1 << 7 * len(raw)
    return v


def leb_items(tier):
    for t in ("uleb128", "ileb128"):
        for e in "<>":
            for hi in range(256):
                yield {"t": t, "e": e, "first": hi}


def run_leb(c):
    """All sequences starting with one byte (up to two bytes), and a slice of the integers."""
    signed = c["t"] == "ileb128"
    cs = cstruct(endian=c["e"])
    T = getattr(cs, c["t"])
    first = c["first"]
    seqs = [bytes([first])] if first < 128 else [bytes([first, b]) for b in range(128)]
    for s in seqs:
        v = leb_decode(s, signed)
        fh = io.BytesIO(s + b"\x85\x01")
        got = T.read(fh)
        check(got == v and fh.tell() == len(s), c["t"], s, "decodes as", got, "expected", v, "consumed", fh.tell())
        if leb_encode(v, signed) == s:
            check(T.dumps(got) == s, c["t"], "encodes", got, "as", T.dumps(got), "expected", s)
    step = 560
    for v in range(-70000 + first * step, -70000 + (first + 1) * step):
        if v < 0 and not signed:
            continue
        check_leb(T, v, signed)
    return ["nontrivial"]


def check_leb(T, v, signed):
    raw = leb_encode(v, signed)
    check(T.dumps(v) == raw, T.__name__, "encodes", v, "as", T.dumps(v), "expected", raw)
    fh = io.BytesIO(raw + b"\x7f")
    got = T.read(fh)
    check(got == v and fh.tell() == len(raw), T.__name__, raw, "decodes as", got, "expected", v)


def gen_leb(src):
    t = src.pick(["uleb128", "ileb128"])
    signed = t == "ileb128"
    vs = []
    for _ in range(src.int(1, 6)):
        k = src.int(0, 3)
        if k == 0:
            v = int_value(src, src.pick([7, 8, 14, 16, 32, 64, 128, 200]), signed)
        elif k == 1:
            v = (1 << 7 * src.int(1, 20) - src.int(0, 1)) + src.int(-2, 2)
        elif k == 2:
            v = src.int(0, 1 << src.int(1, 150))
        else:
            v = -(1 << 7 * src.int(1, 20) - src.int(0, 1)) + src.int(-2, 2)
        vs.append(v if signed else abs(v))
    pads = [src.int(0, 3) for _ in vs]
    return {"t": t, "vs": vs, "pads": pads, "e": src.pick("<>")}


def run_lebs(c):
    signed = c["t"] == "ileb128"
    cs = cstruct(endian=c["e"])
    T = getattr(cs, c["t"])
    raw = b""
    for v, pad in zip(c["vs"], c["pads"]):
        check_leb(T, v, signed)
        one = leb_encode(v, signed)
        raw += one
        # a longer encoding of the same number
        last = one[-1]
        ext = one[:-1] + bytes([last | 0x80]) + b"\x80" * (pad - 1) + b"\0" if pad else one
        if signed and v < 0 and pad:
            ext = one[:-1] + bytes([last | 0x80]) + b"\xff" * (pad - 1) + b"\x7f"
        got = T(ext)
        check(got == v, c["t"], ext, "decodes as", got, "expected", v)
    A = T[len(c["vs"])]
    check(A(raw) == c["vs"], c["t"], "array", raw, A(raw), c["vs"])
    check(A.dumps(c["vs"]) == raw, c["t"], "array dumps", A.dumps(c["vs"]), raw)
    if all(c["vs"]):
        fh = io.BytesIO(raw + b"\0\x01")
        check(T[None].read(fh) == c["vs"] and fh.tell() == len(raw) + 1, c["t"], "null-terminated", raw)
        check(T[None].dumps(c["vs"]) == raw + b"\0", c["t"], "null-terminated dumps", T[None].dumps(c["vs"]))
    cs.load(f"struct S {{ {c['t']} a; uint8 b; {c['t']} c[2]; uint16 d; }};")
    v, w = c["vs"][0], c["vs"][-1]
    r = leb_encode(v, signed) + b"\7" + leb_encode(w, signed) + leb_encode(v, signed) + (b"\1\2" if c["e"] == "<" else b"\2\1")
    o = cs.S(r)
    check((o.a, o.b, o.c, o.d) == (v, 7, [w, v], 0x201), "in a structure", o, "expected", v, w)
    check(o.dumps() == r, "structure dumps", o.dumps(), "expected", r)
    if not signed:
        expect(lambda: T.dumps(-1 - v), Exception)
    return ["nontrivial"] if len(raw) > 1 else []


# --- byte-order changes ----------------------------------------------------------------------------------------------
def gen_switch(src):
    unions = src.bool(1, 4)
    p, env, v, raw, mask = prog_value(src, Opt(mixed=True, unions=unions, eof=False))
    steps = []
    for _ in range(src.int(1, 5)):
        steps.append({"e": src.pick(ENDIANS), "how": src.int(0, 2), "v": gen_value(src, env, TOP) if not unions else None,
                      "raw": src.bytes(4)})  # fmt: skip
    return {"p": p, "v": v, "steps": steps, "unions": unions, "extra": src.bool(1, 3)}


def run_switch(c):
    p = c["p"]
    labels = feats(Env(p), ["switches"])
    for compiled, cs, T in modes(p):
        old = []
        first = Env(p)
        if not c["unions"]:
            o = build(first, T, TOP, c["v"])
            old.append((o, c["v"]))
        for i, st in enumerate(c["steps"]):
            cs.endian = st["e"]
            env = Env({**p, "endian": eff(st["e"])})
            if c["extra"]:
                cs.load(f"struct X{i} {{ uint16 a; uint32 b; wchar w; uint64 *p; }};", compiled=compiled)
            if not c["unions"]:
                v = st["v"]
                raw, mask = env.dumps(TOP, v)
            else:
                # unions hold bytes: derive the value from bytes valid under this byte order
                raw0, mask = Env(p).dumps(TOP, c["v"])
                try:
                    v, end, _ = env.parse(TOP, raw0 + b"\0" * 64)
                except (Eof, Reject):
                    continue
                if has_nan(v):
                    continue
                raw, mask = env.dumps(TOP, v)
            fh = io.BytesIO(raw + b"\xee\xee")
            o = T.read(fh)
            check(fh.tell() == len(raw), "consumed", fh.tell(), "expected", len(raw), "endian", st["e"])
            check(same(norm(env, TOP, o), v), "endian", st["e"], "compiled", compiled, "parsed", norm(env, TOP, o), "expected", v)
            check(o.dumps() == raw, "endian", st["e"], "compiled", compiled, "dumped", o.dumps(), "expected", raw)
            if not c["unions"]:
                # values do not change, their encoding does
                old.append((o, v))
                for x, xv in old:
                    check(same(norm(env, TOP, x), xv), "an earlier value changed", norm(env, TOP, x), "expected", xv)
                    exp = env.dumps(TOP, xv)[0]
                    check(x.dumps() == exp, "endian", st["e"], "earlier value dumps", x.dumps(), "expected", exp)
                b = build(env, T, TOP, v)
                check(b.dumps() == raw, "built value dumps", b.dumps(), "expected", raw)
            for name in ("uint16", "int32", "uint48", "wchar", "double", "uint24"):
                part = bytes(range(1, 1 + SCALARS[name][1]))
                S = getattr(cs, name)
                check(S(part) == decode(name, st["e"], part), name, "under", st["e"], "is", S(part))
                check(S.dumps(decode(name, st["e"], part)) == part, name, "dumped under", st["e"])
    if len({eff(s["e"]) for s in c["steps"]} | {eff(p["endian"])}) > 1:
        labels.append("nontrivial")
    return labels


def subs():
    return [
        Sub("small", run_small, items=small_items, rule="every value of every 1- and 2-byte type in 5 byte orders"),
        Sub("names", run_names, items=name_items, rule="every built-in name"),
        Sub("leb", run_leb, items=leb_items, rule="every LEB128 sequence of 1 or 2 bytes; integers -70000..73360"),
        Sub("wide", run_wide, gen_wide, quick=20000, thorough=1000000),
        Sub("lebs", run_lebs, gen_leb, quick=4000, thorough=200000),
        Sub("switch", run_switch, gen_switch, quick=4000, thorough=120000, show=show_case),
    ]
