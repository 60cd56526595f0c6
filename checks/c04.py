"""C04: C layout; declared size equals bytes read and written."""

import ctypes
import io
import os
import shutil
import subprocess
import tempfile

from dissect.cstruct import cstruct
from dissect.cstruct.expression import Expression
from dissect.cstruct.types import Int

from lib import bigs, kinds
from lib.common import *
from lib.gen import INTS, PTRS
from lib.harness import Discard, Sub
from lib.model import ALIASES, SCALARS, canon
from lib.render import base_and_decl, prog_text
from lib.src import Source

RULE = (
    "A case is a set of declarations in packed or aligned mode. Oracles: ctypes and gcc for C-compatible declarations, the "
    "reference model for everything (bit-fields, 24/48-bit integers, members after variable-size members). Non-trivial: at "
    "least two fields and, in aligned mode, some padding, or nesting."
)
ASSUMPTIONS = [
    "gcc and ctypes on x86-64 define the C layout; wchar is uint16_t, enums have their declared underlying type",
    "bit-field placement is compared with the model only (C06)",
]
PACKED = [1, 2, 4, 8]
CINT = {1: ctypes.c_uint8, 2: ctypes.c_uint16, 4: ctypes.c_uint32, 8: ctypes.c_uint64}
CSINT = {1: ctypes.c_int8, 2: ctypes.c_int16, 4: ctypes.c_int32, 8: ctypes.c_int64}


# --- what the code says ----------------------------------------------------------------------------------------------
def offset(d, sf):
    """All members of a union start at 0, whether the code says so or says nothing."""
    return 0 if d["k"] == "union" and sf.offset is None else sf.offset


def offsets(d, T, expected):
    """Offsets of all members; bit-fields after the first one of a unit may have none."""
    return [e if f.get("b") and sf.offset is None else offset(d, sf) for f, sf, e in zip(d["f"], T.__fields__, expected)]


def member_offsets(env, d, T):
    """[(path, offset, size, alignment)] of all members as declared by the code."""
    check(len(T.__fields__) == len(d["f"]), "number of fields", len(T.__fields__), len(d["f"]))
    out = []
    for f, sf in zip(d["f"], T.__fields__):
        out.append((f["n"], offset(d, sf), sf.type.size, sf.type.alignment))
        if f["n"] is not None:
            check(T.fields[f["n"]].offset == sf.offset, "fields[] and __fields__ differ at", f["n"])
    return out


def inner_class(t, typ):
    while t[0] == "arr":
        t, typ = t[1], typ.type
    return t, typ


# --- ctypes ----------------------------------------------------------------------------------------------------------
class CT:
    def __init__(self, env):
        self.env = env
        self.memo = {}

    def typ(self, t):
        env = self.env
        if t[0] == "arr":
            return self.typ(t[1]) * t[2][1]
        if t[0] in ("s", "enum", "flag", "ptr"):
            kind, size, signed, _ = env.scalar(t)
            if kind == "float" and size > 2:
                return ctypes.c_float if size == 4 else ctypes.c_double
            if kind == "char":
                return ctypes.c_char
            return (CSINT if signed and kind == "int" else CINT)[size]
        return self.sdef(env.sdef(t))

    def sdef(self, d):
        if id(d) in self.memo:
            return self.memo[id(d)][1]
        base = ctypes.Structure if d["k"] == "struct" else ctypes.Union
        ns = {}
        if not self.env.align:
            ns["_pack_"] = 1
        ns["_fields_"] = [(f["n"] or f"anon{i}", self.typ(f["t"])) for i, f in enumerate(d["f"])]
        c = type("X", (base,), ns)
        self.memo[id(d)] = (d, c)
        return c


def c_compatible(src, **kw):
    ptrs = ["uint8", "uint16", "uint32", "uint64"]
    return Gen(src, Opt(lebs=False, bits=False, only_fixed=True, maxfields=8, helpers=3, ptrtypes=ptrs, **kw)).prog()


def gen_ctypes(src):
    return {"p": c_compatible(src, wide=False)}


def padding(env):
    """Is there padding anywhere, is anything nested?"""
    out = set()
    for x in env.walk(TOP):
        if x[0] in ("st", "inl"):
            d = env.sdef(x)
            if x != TOP:
                out.add("nested")
            if d["k"] == "struct" and not any(f.get("b") for f in d["f"]):
                n = env.size(x)
                if n is not None and n > sum(env.size(f["t"]) for f in d["f"]):
                    out.add("padding")
    return out


def run_ctypes(c):
    p = c["p"]
    env = Env(p)
    ct = CT(env)
    for compiled, cs, T in modes(p):
        for d in [x for x in p["defs"] if x["k"] in ("struct", "union")]:
            compare_ctypes(env, ct, d, getattr(cs, d["n"]))
    labels = feats(env, padding(env))
    return [*labels, "nontrivial"] if len(env.defs["T"]["f"]) > 1 and padding(env) else labels


def compare_ctypes(env, ct, d, T):
    c = ct.sdef(d)
    check((T.size, len(T)) == (ctypes.sizeof(c), ctypes.sizeof(c)),
          d["n"], "size, len", (T.size, len(T)), "C:", ctypes.sizeof(c))  # fmt: skip
    if env.align:
        check(T.alignment == ctypes.alignment(c), d["n"], "alignment", T.alignment, "C:", ctypes.alignment(c))
    for i, (f, got) in enumerate(zip(d["f"], member_offsets(env, d, T))):
        cf = getattr(c, f["n"] or f"anon{i}")
        ctt = ct.typ(f["t"])
        exp = (cf.offset, ctypes.sizeof(ctt), ctypes.alignment(ctt))
        k = 4 if env.align else 3
        check(got[1:k] == exp[: k - 1], d["n"], f["n"], "offset, size, alignment", got[1:], "C:", exp)
        t, cls = inner_class(f["t"], T.__fields__[i].type)
        if t[0] == "inl":
            compare_ctypes(env, ct, t[1], cls)


# --- gcc -------------------------------------------------------------------------------------------------------------
CNAME = {"float16": "_Float16", "float": "float", "double": "double", "char": "char", "wchar": "uint16_t", "void": "void",
         "int128": "__int128", "uint128": "unsigned __int128"}  # fmt: skip


def c_type(env, t, prefix):
    if t[0] in ("s", "enum", "flag", "ptr"):
        n = env.under(t)
        return CNAME.get(n, n + "_t")
    return prefix + t[1]


def c_body(env, d, prefix):
    attr = "" if env.align else " __attribute__((packed))"
    out = []
    for f in d["f"]:
        t, dims = f["t"], ""
        while t[0] == "arr":
            # the first dimension written is the innermost one in the representation's order of nesting
            dims = dims + f"[{t[2][1]}]"
            t = t[1]
        head = f"{t[1]['k']} {c_body(env, t[1], prefix)}" if t[0] == "inl" else c_type(env, t, prefix)
        out.append(f"{head} {f['n'] or ''}{dims};")
    return "{ " + " ".join(out) + " }" + attr


def gen_gcc(src):
    return {"ps": [c_compatible(src, wide=True) for _ in range(40)]}


def no24(p):
    """The program with 24 and 48 bit integers replaced (C has none)."""
    sub = {"int24": "int32", "uint24": "uint32", "int48": "int64", "uint48": "uint64"}

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "s":
                return ("s", sub.get(x[1], x[1]))
            if len(x) == 3 and x[0] == "n" and "sizeof" in repr(x[2]):
                return x[:2]  # the sizes have changed
            return tuple(go(y) for y in x)
        if isinstance(x, list):
            return [go(y) for y in x]
        if isinstance(x, dict):
            return {k: sub.get(v, v) if k == "u" else go(v) for k, v in x.items()}
        return x

    return go(p)


def run_gcc(c):
    ps = [no24(p) for p in c["ps"]]
    src = ["#include <stdint.h>", "#include <stddef.h>", "#include <stdio.h>"]
    main, expect_n = [], 0
    for i, p in enumerate(ps):
        env = Env(p)
        for d in p["defs"]:
            if d["k"] not in ("struct", "union"):
                continue
            n = f"P{i}_{d['n']}"
            src.append(f"typedef {d['k']} {c_body(env, d, f'P{i}_')} {n};")
            main.append(f'printf("{n} %zu %zu", sizeof({n}), _Alignof({n}));')
            for name, _, _ in flat(env, d):
                main.append(f'printf(" %zu", offsetof({n}, {name}));')
            main.append('printf("\\n");')
    src.append("int main(void) {" + "\n".join(main) + "return 0; }")
    tmp = tempfile.mkdtemp(prefix="c04")
    try:
        r = subprocess.run(["gcc", "-w", "-O0", "-x", "c", "-o", f"{tmp}/a", "-"], input="\n".join(src), text=True,
                           capture_output=True, timeout=120)  # fmt: skip
        if r.returncode:
            raise RuntimeError("gcc: " + r.stderr[:800])
        out = subprocess.run([f"{tmp}/a"], capture_output=True, text=True, timeout=60).stdout
    finally:
        shutil.rmtree(tmp)
    got = {}
    for line in out.splitlines():
        w = line.split()
        got[w[0]] = [int(x) for x in w[1:]]
    pad = 0
    for i, p in enumerate(ps):
        env = Env(p)
        for compiled, cs, _ in modes(p):
            for d in p["defs"]:
                if d["k"] not in ("struct", "union"):
                    continue
                T = getattr(cs, d["n"])
                exp = got[f"P{i}_{d['n']}"]
                mine = [len(T), T.alignment if env.align else exp[1]] + [off for _, _, off in flat(env, d, T)]
                check(mine == exp, d["n"], "size, alignment, offsets", mine, "gcc", exp, [x[0] for x in flat(env, d)],
                      "\n", {k: p[k] for k in ("endian", "align", "ptr")}, "\n" + prog_text(p))  # fmt: skip
        pad += bool(padding(env))
    return ["nontrivial"] if pad else []


def flat(env, d, T=None, base=0):
    """(name, field, offset by the code) of all fields, those of anonymous members included."""
    for i, f in enumerate(d["f"]):
        off = None if T is None else base + offset(d, T.__fields__[i])
        if f["n"] is None:
            yield from flat(env, env.sdef(f["t"]), None if T is None else T.__fields__[i].type, off)
        else:
            yield f["n"], f, off


# --- everything agrees -----------------------------------------------------------------------------------------------
def check_class(env, cs, t, cls, raw, name=None):
    """size == len == sizeof == consumed == produced for one fixed-size type, and its layout follows the model."""
    n = env.size(t)
    check(cls.size == n, t[:2], "size", cls.size, "expected", n)
    check(not env.align or (cls.alignment or 1) == env.alignof(t), t[:2], "alignment", cls.alignment, "expected", env.alignof(t))
    if n is None:
        try:
            r = len(cls)
        except TypeError:
            pass
        else:
            raise Fail("len of a variable-size type", t, r)
        return
    check(len(cls) == n, t[:2], "len", len(cls), "expected", n)
    if name:
        e = Expression(cs, f"sizeof({name})").evaluate()
        check(e == n, "sizeof", name, e, "expected", n)
    fh = io.BytesIO(raw)
    fh.seek(16)
    obj = cls.read(fh)
    check(fh.tell() == 16 + n, t[:2], "consumed", fh.tell() - 16, "expected", n)
    d = cls.dumps(obj)
    check(len(d) == n, t[:2], "produced", len(d), "expected", n)
    check(len(cls.dumps(cls.__default__())) == n, t[:2], "default produced", len(cls.dumps(cls.__default__())), "expected", n)
    out = io.BytesIO()
    out.write(b"xxxx" * 4)
    cls.write(out, obj)
    check(out.tell() == 16 + n, t[:2], "written", out.tell() - 16, "expected", n)
    if t[0] in ("st", "inl"):
        check(len(obj.dumps()) == n and len(obj) == n, t[:2], "len and dump of an instance", len(obj), len(obj.dumps()))


def check_layout(env, cs, d, T, data):
    lay = env.layout(d)
    got = offsets(d, T, lay["offsets"])
    check(got == lay["offsets"], d["n"], "offsets", got, "expected", lay["offsets"])
    for i, f in enumerate(d["f"]):
        check(T.__fields__[i].bits == f.get("b"), d["n"], f["n"], "bits", T.__fields__[i].bits)
        if not f.get("b"):
            check_class(env, cs, f["t"], T.__fields__[i].type, data)
        t, cls = inner_class(f["t"], T.__fields__[i].type)
        if t[0] == "inl":
            check_class(env, cs, t, cls, data)
            check_layout(env, cs, t[1], cls, data)


def run_agree(c):
    p = c["p"]
    env = Env(p)
    extra = []
    for d in p["defs"]:
        n = env.sizeof_name(d["n"])
        if n is not None:
            extra.append(f"struct L_{d['n']} {{ uint8 v[sizeof({d['n']})]; uint16 w[sizeof ( {d['n']} ) * 2 + 1]; {d['n']} x[2]; uint8 y; }};")
    for compiled, cs, T in modes(p):
        cs.load("\n".join(extra), compiled=compiled, align=p["align"])
        for d in p["defs"]:
            cls = getattr(cs, d["n"])
            t = (d["k"] if d["k"] in ("enum", "flag") else "st", d["n"])
            if d["k"] in ("struct", "union"):
                check_layout(env, cs, d, cls, c["data"])
            check_class(env, cs, t, cls, c["data"], d["n"])
            n = env.sizeof_name(d["n"])
            if n is None:
                continue
            for k in (0, 1, 3):
                check_class(env, cs, ("arr", t, ("n", k)), cls[k], c["data"])
            check_class(env, cs, ("arr", ("arr", t, ("n", 2)), ("n", 3)), cls[2][3], c["data"])
            L = getattr(cs, f"L_{d['n']}")
            lt = ("inl", {"k": "struct", "n": None, "f": [
                {"n": "v", "t": ("arr", ("s", "uint8"), ("n", n)), "b": None},
                {"n": "w", "t": ("arr", ("s", "uint16"), ("n", 2 * n + 1)), "b": None},
                {"n": "x", "t": ("arr", t, ("n", 2)), "b": None}, {"n": "y", "t": ("s", "uint8"), "b": None}]})  # fmt: skip
            check_class(env, cs, lt, L, c["data"] * 3)
            check_layout(env, cs, lt[1], L, c["data"] * 3)
    labels = feats(env, padding(env))
    return [*labels, "nontrivial"] if len(env.defs["T"]["f"]) > 1 and (padding(env) or "bits" in labels) else labels


def sample(env):
    """Input that every fixed-size type of the program can be parsed from: no surrogates."""
    return bytes(range(1, 100)) * 60


def gen_agree(src):
    fixed = src.bool(2, 3)
    g = Gen(src, Opt(mixed=True, only_fixed=fixed, eof=False, lebs=not fixed, maxfields=7))
    p = g.prog()
    for d in p["defs"]:
        if d["k"] in ("struct", "union") and g.env.size(("st", d["n"])) is not None and g.env.size(("st", d["n"])) > 400:
            raise Discard
    return {"p": p, "data": sample(g.env)}


# --- structures of variable size: the layout of every value ----------------------------------------------------------
def gen_dynamic(src):
    p, env, v, raw, mask = prog_value(src, Opt(mixed=True, eof=False, maxfields=6))
    if env.size(TOP) is not None:
        raise Discard
    return {"p": p, "v": v, "data": dirty(src, raw, mask)}


def run_dynamic(c):
    """Alignment and padding of members after variable-size ones, and at the end of the structure."""
    p = c["p"]
    env = Env(p)
    raw, mask = env.dumps(TOP, c["v"])
    n = len(raw)
    for compiled, cs, T in modes(p):
        check_layout(env, cs, env.defs["T"], T, sample(env))
        for pos in (0, 16, 48):
            fh = io.BytesIO(b"\xa5" * pos + c["data"] + b"\x5a" * 40)
            fh.seek(pos)
            o = T.read(fh)
            check(fh.tell() - pos == n, "consumed", fh.tell() - pos, "expected", n, "compiled", compiled)
            check(same(norm(env, TOP, o), c["v"]), "parsed", norm(env, TOP, o), "expected", c["v"], "compiled", compiled)
            out = io.BytesIO(b"\xa5" * pos)
            out.seek(pos)
            T.write(out, o)
            check(out.tell() - pos == n == len(o.dumps()), "produced", out.tell() - pos, len(o.dumps()), "expected", n)
            check(eq_masked(out.getvalue()[pos:], raw, mask), "wrote", out.getvalue()[pos:].hex(), "expected", raw.hex())
        if env.aligned(env.defs["T"]) and n % env.alignof(TOP):
            raise Fail("model: not padded")
        two = T[2](c["data"] * 2)
        check(len(T[2].dumps(two)) == 2 * n and same([norm(env, TOP, x) for x in two], [c["v"]] * 2), "array of two")
    labels = feats(env)
    return [*labels, "nontrivial"] if len(env.defs["T"]["f"]) > 1 and env.align else labels


def run_kinds(c):
    p = kinds.prog(c["kinds"], c["endian"], c["align"])
    env = Env(p)
    t = TOP
    raw = b"\1" * 16 + sample(env)[:200]
    d = env.defs["T"]
    n = env.size(t)
    for compiled, cs, T in modes(p):
        exp = env.layout(d)["offsets"]
        check(offsets(d, T, exp) == exp, "offsets", offsets(d, T, exp), "expected", exp)
        check_class(env, cs, t, T, raw, "T")
        if n is not None:
            check_class(env, cs, ("arr", t, ("n", 2)), T[2], raw)
    return ["nontrivial"] if len(d["f"]) > 1 and n is not None else []


def run_names(c):
    """Every built-in name: size, alignment, sizeof, consumption, production, alone, in arrays and in structures."""
    cs = cstruct(endian=c["endian"])
    name = c["name"]
    t = ("s", name)
    env = Env({"endian": c["endian"], "align": True, "ptr": "uint64", "defs": [], "consts": []})
    cls = cs.resolve(name)
    data = sample(env)
    check_class(env, cs, t, cls, data, name)
    kind, n, _, al = SCALARS[canon(name)]
    if n is None or kind == "void":
        return []
    for k in (0, 1, 2, 5):
        check_class(env, cs, ("arr", t, ("n", k)), cls[k], data)
    for align in (False, True):
        env.align = align
        env._lay = {}
        cs2 = cstruct(endian=c["endian"])
        cs2.load(f"struct T {{ uint8 a; {name} b; uint8 c; {name} d[3]; uint8 e; {name} f[2][2]; uint8 g; }};", align=align)
        d = {"k": "struct", "n": "T", "f": [
            {"n": x, "t": y, "b": None} for x, y in [
                ("a", ("s", "uint8")), ("b", t), ("c", ("s", "uint8")), ("d", ("arr", t, ("n", 3))), ("e", ("s", "uint8")),
                ("f", ("arr", ("arr", t, ("n", 2)), ("n", 2))), ("g", ("s", "uint8"))]]}  # fmt: skip
        check_layout(env, cs2, d, cs2.T, data)
        check_class(env, cs2, ("inl", d), cs2.T, data, "T")
    return ["nontrivial"]


def name_items(tier):
    for name in [*SCALARS, *ALIASES]:
        for e in "<>":
            yield {"name": name, "endian": e}


def run_ptr(c):
    """The configured pointer width decides the layout."""
    al = c["align"]
    env = Env({"endian": "<", "align": al, "ptr": c["ptr"], "consts": [], "defs": []})
    text = f"struct T {{ uint8 a; {c['target']} *b; uint8 c; {c['target']} **d[2]; uint8 e; }};"
    pt = ("ptr", ("s", "uint8"))
    d = {"k": "struct", "n": "T", "f": [
        {"n": x, "t": y, "b": None} for x, y in [("a", ("s", "uint8")), ("b", pt), ("c", ("s", "uint8")),
                                                 ("d", ("arr", pt, ("n", 2))), ("e", ("s", "uint8"))]]}  # fmt: skip
    for compiled in (True, False):
        cs = cstruct(pointer=c["ptr"])
        cs.load(text, compiled=compiled, align=al)
        check_layout(env, cs, d, cs.T, sample(env))
        check_class(env, cs, ("inl", d), cs.T, sample(env), "T")
    return ["nontrivial"]


def ptr_items(tier):
    for ptr in [*PTRS, "uint128", "ulong", "unsigned long long"]:
        for al in (False, True):
            for target in ("void", "char", "uint32", "wchar", "int128"):
                yield {"ptr": ptr, "align": al, "target": target}


def run_big(c):
    p = bigs.prog(c)
    env = Env(p)
    raw = b"\1" * 16 + sample(env)[:200]
    d = env.defs["T"]
    n = env.size(TOP)
    for compiled, cs, T in modes(p):
        exp = env.layout(d)["offsets"]
        check(offsets(d, T, exp) == exp, "offsets", offsets(d, T, exp), "expected", exp)
        if n is not None:
            check(T.size == n and len(T) == n, "size", T.size, "expected", n)
            data = raw * (n // len(raw) + 2)
            check_class(env, cs, TOP, T, data, "T")
            check_class(env, cs, ("arr", TOP, ("n", 2)), T[2], data * 2)
        else:
            check(T.size is None, "size", T.size)
    return bigs.nontrivial(c) if n is not None else []


# --- custom types with a declared alignment, members at given offsets -------------------------------------------------
GAPS = [0, 1, 2, 3, 7, 15, 16, 63, 100, 127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2047, 4000, 4095, 4096, 4097, 8191, 8192, 10000, 16384, 32767, 65535, 65536, 70000]
BUILTIN = {"uint8": (1, 1), "uint16": (2, 2), "int24": (3, 4), "uint32": (4, 4), "int48": (6, 8), "uint64": (8, 8), "uint128": (16, 16), "char": (1, 1), "double": (8, 8)}


def gen_placed(src):
    """Fields of built-in and custom types, some at given offsets."""
    align = src.bool()
    customs = []
    for i in range(src.int(0, 3)):
        size = src.weighted([(4, src.int(1, 9)), (2, src.int(1, 20)), (1, 33)])
        al = src.pick([1, 2, 4, 8, 16, 32])
        if (not align or size & (size - 1) == 0) and src.bool(1, 3):
            al = None
        customs.append((f"cust{i}", size, al, src.bool()))
    kinds_ = [*BUILTIN, *[x[0] for x in customs] * 3]

    def fields(given):
        out = []
        for i in range(src.int(1, 5)):
            gap = src.pick(GAPS[: 8 if src.bool() else None]) if given and src.bool(1, 2) else None
            out.append((f"f{i}", src.pick(kinds_), src.weighted([(5, None), (1, 0), (1, 1), (1, 3), (1, 5)]), gap))
        return out

    return {"align": align, "customs": customs, "inner": fields(src.bool(1, 3)), "outer": fields(src.bool(2, 3)), "nest": src.weighted([(2, None), (2, 0), (1, 2)]),
            "union": src.bool(1, 3), "compiled": src.bool(), "endian": src.pick("<>"), "seed": src.int(0, 1 << 30)}  # fmt: skip


def run_placed(c):
    al = c["align"]
    cs = cstruct(endian=c["endian"])
    info = dict(BUILTIN)
    for name, size, a, signed in c["customs"]:
        cs.add_custom_type(name, Int, size, a, signed=signed)
        info[name] = (size, a or size)
        check(cs.resolve(name).size == size, name, "size", cs.resolve(name).size)

    def place(name, fs):
        """-> [(name, type, offset, size)], size, alignment; makes the structure as well"""
        cs.load(f"struct {name} {{ }};", compiled=c["compiled"], align=al)
        T = cs.resolve(name)
        out, end, most = [], 0, 1
        for fname, t, n, gap in fs:
            size, a = info[t]
            most = max(most, a)
            off = None
            if gap is not None:
                off = end + gap
                if al:
                    off += -off % a
            pos = off if off is not None else end + (-end % a if al else 0)
            typ = cs.resolve(t) if n is None else cs.resolve(t)[n]
            T.add_field(fname, typ, offset=off)
            end = pos + size * (1 if n is None else n)
            out.append((fname, typ, pos, end - pos))
        return T, out, end + (-end % most if al else 0), most

    src = Source(seed=c["seed"])

    def verify(T, name, fs, size, most):
        check(T.size == size and len(T) == size, name, "size", T.size, "expected", size)
        check(not al or T.alignment == most, name, "alignment", T.alignment, "expected", most)
        got = [f.offset for f in T.__fields__]
        check(got == [f[2] for f in fs], name, "offsets", got, "expected", [f[2] for f in fs])
        check(Expression(cs, f"sizeof({name})").evaluate() == size, "sizeof", name)
        raw = (src.bytes(64) * (size // 64 + 1))[:size]
        exp = bytearray(size)
        for _, _, pos, n in fs:
            exp[pos : pos + n] = raw[pos : pos + n]
        for base in (0, 32):
            fh = io.BytesIO(b"\5" * base + raw + b"\6" * 9)
            fh.seek(base)
            o = T(fh)
            check(fh.tell() == base + size, name, "consumed", fh.tell() - base, "expected", size)
            for fname, typ, pos, n in fs:
                v = getattr(o, fname)
                check(typ.dumps(v) == raw[pos : pos + n] and v == typ(raw[pos : pos + n]) or v != v or "double" in typ.__name__, name, fname, "is", repr(v)[:100], "at", pos)
            out = io.BytesIO(b"\5" * base)
            out.seek(base)
            T.write(out, o)
            if "double" not in str([f[1].__name__ for f in fs]):
                check(out.getvalue()[base:] == bytes(exp), name, "wrote", out.getvalue()[base:].hex()[:400], "expected", bytes(exp).hex()[:400])
            check(len(out.getvalue()) == base + size and len(o.dumps()) == size == len(o), name, "produced", len(out.getvalue()) - base, "expected", size)
        check(len(T().dumps()) == size, name, "default produced", len(T().dumps()), "expected", size)
        if size:
            try:
                T(raw[: max([p + n for _, _, p, n in fs]) - 1])
            except EOFError:
                pass
            else:
                check(not fs[-1][3], name, "parsed from short data")

    I, ifs, isize, ial = place("I", c["inner"])
    verify(I, "I", ifs, isize, ial)
    info["I"] = (isize, ial)
    outer = list(c["outer"])
    if c["nest"] is not None and isize < 5000:
        outer.insert(len(outer) // 2, ("in_", "I", c["nest"] or None, None))
    T, fs, size, most = place("T", outer)
    if c["nest"] is None or isize >= 5000:
        verify(T, "T", fs, size, most)
    else:
        check(T.size == size and [f.offset for f in T.__fields__] == [f[2] for f in fs], "T size, offsets", T.size, [f.offset for f in T.__fields__], "expected", size, fs)
        fh = io.BytesIO(bytes(size + 5))
        o = T(fh)
        check(fh.tell() == size and len(o.dumps()) == size, "T consumed", fh.tell(), "produced", len(o.dumps()), "expected", size)
    cs.load("union U { I a; T b; uint8 c; };", align=al, compiled=c["compiled"])
    usize = max(size, isize, 1)
    ual = max(most, ial) if al else 1
    usize += -usize % ual
    fh = io.BytesIO(bytes(usize + 3))
    u = cs.U(fh)
    check(cs.U.size == usize and fh.tell() == usize and len(u.dumps()) == usize, "U size", cs.U.size, "consumed", fh.tell(), "produced", len(u.dumps()), "expected", usize)
    return ["nontrivial"] if c["customs"] or any(f[3] for f in [*c["inner"], *c["outer"]]) else []


def subs():
    return [
        Sub("big", run_big, items=lambda t: bigs.items(t, 2 if t == "quick" else 1), rule="long arrays, wide and deeply nested structures"),
        Sub("names", run_names, items=name_items, rule="every built-in type name in both byte orders"),
        Sub("ptr", run_ptr, items=ptr_items, rule="every pointer width x alignment mode x target"),
        Sub("kinds", run_kinds, items=lambda t: kinds.items(t, 3), rule="all sequences of up to 3 (4) of 24 field kinds"),
        Sub("ctypes", run_ctypes, gen_ctypes, quick=4000, thorough=200000, show=show_case),
        Sub("gcc", run_gcc, gen_gcc, quick=24, thorough=800, show=lambda c: "\n".join(prog_text(p) for p in c["ps"][:2]), shrinks=60),
        Sub("dynamic", run_dynamic, gen_dynamic, quick=2500, thorough=150000, show=show_case),
        Sub("placed", run_placed, gen_placed, quick=2500, thorough=100000, rule="custom types with a declared alignment, members at given offsets with gaps of any size"),
        Sub("agree", run_agree, gen_agree, quick=3000, thorough=100000, show=show_case),
    ]
