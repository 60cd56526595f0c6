"""C02: parse-then-dump reproduces every data-carrying bit and writes zeros elsewhere."""

import io

from lib import bigs, kinds
from lib.common import *
from lib.gen import FLOATS
from lib.harness import Discard, Sub

RULE = (
    "A case is a definition and an input: a model encoding of a random value with random bits wherever no field has data, "
    "or raw random bytes. Non-trivial: the input has at least 4 data bytes and either bits outside all fields or a "
    "variable-size or bit-field member."
)
ASSUMPTIONS = [
    "the set of data-carrying bits comes from lib/model.py",
    "inputs whose LEB128 values are not minimal or that hold signalling (or half precision) NaNs are known findings",
    "structures without several members named '_' (see known findings)",
]


def dumped(obj, T):
    d = obj.dumps()
    out = io.BytesIO()
    T.write(out, obj)
    check(out.getvalue() == d, "write and dumps differ", out.getvalue(), d)
    check(bytes(obj) == d, "bytes() and dumps differ", bytes(obj), d)
    return d


def fidelity(p, env, v, raw, data, labels):
    """data: an encoding of v whose bits outside fields are arbitrary; raw: the same with zeros there."""
    for compiled, cs, T in modes(p):
        fh = io.BytesIO(data)
        obj = T.read(fh)
        check(fh.tell() == len(raw), "consumed", fh.tell(), "expected", len(raw), "compiled", compiled)
        d = dumped(obj, T)
        check(len(d) == fh.tell(), "dumped", len(d), "bytes, consumed", fh.tell(), "compiled", compiled)
        check(d == raw, "dumped", d, "expected", raw, "input", data, "compiled", compiled)
        check(same(norm(env, TOP, obj), v), "parsed", norm(env, TOP, obj), "expected", v, "compiled", compiled)
        check(dumped(obj, T) == raw, "second dump differs")
    return labels


def gen_fidelity(src):
    eof = src.bool(1, 6)
    p, env, v, raw, mask = prog_value(src, Opt(mixed=True, eof=eof))
    data = dirty(src, raw, mask)
    suffix = b"" if eof else src.bytes(src.int(0, 9))
    return {"p": p, "v": v, "data": data, "suffix": suffix}


def run_fidelity(c):
    p = c["p"]
    env = Env(p)
    raw, mask = env.dumps(TOP, c["v"])
    labels = feats(env)
    if c["data"] != raw:
        labels.append("dirty")
    fidelity(p, env, c["v"], raw, c["data"] + c["suffix"], labels)
    if sum(m != 0 for m in mask) >= 4 and ("dirty" in labels or env.size(TOP) is None or "bits" in labels):
        labels.append("nontrivial")
    return labels


def gen_raw(src):
    g = Gen(src, Opt(mixed=True, huge=True, wchars=src.bool(1, 4), floats=src.bool(1, 4)))
    p = g.prog()
    data = src.bytes(src.int(4, 120))
    form = src.int(0, 3)
    if form == 1:
        data = bytes(x if x & 5 else x & 3 for x in data)
    elif form == 2:
        # bytes that mean something to an encoding: signs, continuation bits, exponents, surrogates, byte order marks
        data = bytes(x if x & 1 else SPICE[x >> 1 & 15] for x in data)
    elif form == 3:
        data = bytes(x if x & 3 else SPICE[x >> 2 & 15] for x in data)
    return {"p": p, "data": data}


SPICE = b"\x00\x01\x40\x7f\x80\x81\xc0\xd8\xdb\xdc\xdf\xe0\xf0\xfe\xff\x7c"


def outside_model(p, data):
    """An input the model has no value for (e.g. unpaired surrogates): no value, or one that dumps to what was consumed."""
    env = Env(p)
    plain = not p["align"] and not any(
        x[0] in ("st", "inl") and (env.sdef(x)["k"] == "union" or any(f.get("b") for f in env.sdef(x)["f"])) or x[0] == "s" and x[1] in ("uleb128", "ileb128", *FLOATS)
        for x in env.walk(TOP)
    )
    found = "rejected"
    for compiled, cs, T in modes(p):
        fh = io.BytesIO(data)
        try:
            obj = T.read(fh)
        except Exception:
            continue
        if plain:
            found = "accepted"
            d = dumped(obj, T)
            check(d == data[: fh.tell()], "dumped", d, "parsed from", data[: fh.tell()], "compiled", compiled)
    return ["unmodelled", found]


def run_raw(c):
    p, data = c["p"], c["data"]
    env = Env(p)
    try:
        v, end, buf = env.parse(TOP, data)
    except Eof:
        return ["eof"]
    except Reject:
        return outside_model(p, data)
    if has_nan(v) or buf.partial or end > len(data):
        raise Discard
    raw, mask = env.dumps(TOP, v)
    if raw != bytes(x & y for x, y in zip(data[:end], buf.mask)) and "leb" in features(env, TOP):
        # a known finding: written in its minimal form, everything else unchanged
        for compiled, cs, T in modes(p):
            fh = io.BytesIO(data)
            obj = T.read(fh)
            check(fh.tell() == end, "consumed", fh.tell(), "expected", end, "compiled", compiled)
            check(dumped(obj, T) == raw, "dumped", dumped(obj, T), "expected", raw, "input", data, "compiled", compiled)
        return ["non-canonical"]
    check(raw == bytes(x & y for x, y in zip(data[:end], buf.mask)), "model disagrees with itself")
    labels = fidelity(p, env, v, raw, data, feats(env))
    if sum(m != 0 for m in mask) >= 4:
        labels.append("nontrivial")
    return labels


def run_kinds(c):
    p, env, v, raw, mask, data = kinds.case(c)
    fidelity(p, env, v, raw, data + b"\xa5\x5a", [])
    return ["nontrivial"] if len(c["kinds"]) > 1 else []


# several values in one stream, arrays of structures, and dumps interleaved with parses
def gen_seq(src):
    g = Gen(src, Opt(mixed=True, eof=False))
    p = g.prog()
    vals, datas = [], []
    for _ in range(src.int(2, 4)):
        v = gen_value(src, g.env, TOP)
        raw, mask = g.env.dumps(TOP, v)
        vals.append(v)
        datas.append(dirty(src, raw, mask))
    return {"p": p, "vals": vals, "datas": datas}


def run_seq(c):
    p = c["p"]
    env = Env(p)
    raws = [env.dumps(TOP, v)[0] for v in c["vals"]]
    data = b"".join(c["datas"])
    if any(env.align and len(r) % env.alignof(TOP) for r in raws):
        raise Discard
    for compiled, cs, T in modes(p):
        fh = io.BytesIO(data)
        objs = [T.read(fh) for _ in raws]
        check(fh.tell() == len(data), "consumed", fh.tell(), "of", len(data))
        out = io.BytesIO()
        for o in objs:
            T.write(out, o)
        check(out.getvalue() == b"".join(raws), "dumped", out.getvalue(), "expected", b"".join(raws))
        A = T[len(raws)]
        arr = A(data)
        check(A.dumps(arr) == b"".join(raws), "array dumped", A.dumps(arr), "expected", b"".join(raws))
        check(A.dumps(objs) == b"".join(raws), "list dumped", A.dumps(objs), "expected", b"".join(raws))
    return ["nontrivial", *feats(env)] if len(data) > 4 else feats(env)


# floats: every bit pattern but those the known findings list
FLOAT_FIELDS = [("float", 4), ("double", 8), ("float16", 2)]


def gen_floats(src):
    fields = []
    for i in range(src.int(1, 4)):
        name, size = src.pick(FLOAT_FIELDS)
        n = src.pick([None, None, 2, 3, "z"])
        raws = []
        for _ in range(src.int(0, 5) if n == "z" else n or 1):
            x = src.int(0, (1 << 8 * size) - 1)
            exp = {4: 0x7F800000, 8: 0x7FF << 52, 2: 0x7C00}[size]
            k = src.int(0, 3)
            if k == 0:
                x |= exp
            elif k == 1:
                x &= ~exp
            if x & exp == exp and size == 4:
                x |= 1 << 22
            elif x & exp == exp and size == 2:
                x &= ~0x3FF
            raws.append(x)
        if n == "z":
            # up to a positive zero; a negative one ends the array as well (see known findings)
            raws = [x for x in raws if x & ~(1 << 8 * size - 1)] + [0]
        fields.append((name, size, n, raws))
    return {"endian": src.pick("<>!"), "fields": fields}


def run_floats(c):
    from dissect.cstruct import cstruct

    data = b"".join(x.to_bytes(size, "little" if c["endian"] == "<" else "big") for _, size, _, raws in c["fields"] for x in raws)
    text = "struct T { " + " ".join(f"{name} f{i}{'' if n is None else '[]' if n == 'z' else f'[{n}]'};" for i, (name, _, n, _) in enumerate(c["fields"])) + " };"
    for compiled in (True, False):
        T = cstruct(endian=c["endian"]).load(text, compiled=compiled).T
        d = dumped(T(data), T)
        check(d == data, "dumped", d, "parsed", data, "compiled", compiled)
    return ["nontrivial"] if len(data) > 4 else []


# known findings: members that share the name "_"
def dup_underscore():
    from dissect.cstruct import cstruct

    T = cstruct().load("struct T { uint8 _; uint8 a; uint8 _; };").T
    d = T(b"\x01\x02\x03").dumps()
    return None if d == b"\x01\x02\x03" else f"struct T {{ uint8 _; uint8 a; uint8 _; }} parsed from 010203 dumps {d.hex()}"


# known findings: the value doesn't tell how it was encoded
def reencoded(text, raw, dims=""):
    from dissect.cstruct import cstruct

    T = cstruct().load(f"struct T {{ {text} a{dims}; }};").T
    try:
        d = T(raw).dumps()
    except ValueError:
        return None
    return None if d == raw else f"struct T {{ {text} a{dims}; }} parsed from {raw.hex()} dumps {d.hex()}"


FINDINGS = {
    "duplicate-underscore": dup_underscore,
    "non-minimal-leb128": lambda: reencoded("uleb128", b"\x81\x00") or reencoded("ileb128", b"\xff\x7f"),
    "signalling-nan": lambda: reencoded("float", b"\x01\x00\x80\x7f"),
    "negative-zero-end": lambda: reencoded("float", b"\0\0\0\x80", "[]"),
    "half-nan": lambda: reencoded("float16", b"\x01\x7e"),
}


def run_big(c):
    p, env, v, raw, mask, data = bigs.case(c)
    fidelity(p, env, v, raw, data if c.get("form") == "o" else data + b"\xa5\x5a", [])
    return bigs.nontrivial(c)


def subs():
    return [
        Sub("big", run_big, items=bigs.items, rule="long arrays, wide and deeply nested structures"),
        Sub("kinds", run_kinds, items=kinds.items, rule="all sequences of up to 3 (thorough: 4) of 24 field kinds"),
        Sub("fidelity", run_fidelity, gen_fidelity, quick=8000, thorough=300000, show=show_case),
        Sub("raw", run_raw, gen_raw, quick=6000, thorough=200000, show=show_case),
        Sub("floats", run_floats, gen_floats, quick=1500, thorough=40000),
        Sub("seq", run_seq, gen_seq, quick=3000, thorough=80000, show=show_case),
    ]
