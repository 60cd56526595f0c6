"""Cases with something large in them: long arrays, many fields, deep nesting, big structures in arrays and unions."""

from __future__ import annotations

from lib.common import TOP
from lib.gen import Values, dirty, gen_value
from lib.kinds import DEFS, KINDS
from lib.model import Env
from lib.src import Source

ELEMS = {
    "char": ("s", "char"), "wchar": ("s", "wchar"), "uint8": ("s", "uint8"), "int16": ("s", "int16"), "uint24": ("s", "uint24"),
    "uint64": ("s", "uint64"), "int128": ("s", "int128"), "double": ("s", "double"), "uleb": ("s", "uleb128"), "E": ("enum", "E"),
    "ptr": ("ptr", ("s", "uint8")), "S": ("st", "S"), "U": ("st", "U"), "c5": ("arr", ("s", "char"), ("n", 5)), "cz": ("arr", ("s", "char"), ("z",)),
}  # fmt: skip
COUNTS = [100, 256, 300, 512, 1000, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 8192, 8200]
HUGE = [10000, 16384, 32768, 65535, 65536, 70000]
HEAVY = ("S", "U", "c5", "cz", "int128")


def items(tier, step=1):
    """step: take every step-th case only"""
    out = []
    for i, el in enumerate(ELEMS):
        for j, n in enumerate(COUNTS + HUGE):
            for k, form in enumerate("nezo"):
                if tier == "quick" and (i + j + k) % 4 and n > 300:
                    continue
                if n > (5000 if tier == "quick" else 20000) and el in HEAVY:
                    continue
                if form == "z" and el in ("double", "ptr", "c5", "cz", "U"):
                    continue
                out.append({"shape": "long", "el": el, "n": n, "form": form})
    for i, n in enumerate((20, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300)):
        for r in range(4 if tier == "quick" else 40):
            out.append({"shape": "wide", "n": n, "r": r + i})
    for n in (5, 10, 15, 16, 17, 20, 30):
        for r in range(4 if tier == "quick" else 40):
            out.append({"shape": "deep", "n": n, "r": r})
    for n in (100, 1000, 4000, 5000, 9000):
        for r in range(6 if tier == "quick" else 40):
            out.append({"shape": "block", "n": n, "r": r})
    for i, c in enumerate(out):
        if i % step == 0:
            yield {**c, "endian": "<>"[i % 2], "align": i // 2 % 3 == 0 and c.get("form") != "o"}


def F(n, t, b=None):
    return {"n": n, "t": t, "b": b}


def prog(c):
    src = Source(seed=repr(c))
    defs = list(DEFS)
    if c["shape"] == "long":
        n = c["n"]
        ln = {"n": ("n", n), "e": ("e", ("id", "n")), "z": ("z",), "o": ("eof",)}[c["form"]]
        f = [F("n", ("s", "uint32")), F("k", ("s", "uint8")), F("x", ("arr", ELEMS[c["el"]], ln))]
        if c["form"] != "o":
            f += [F("tail", ("s", "uint16")), F("last", ("s", "char"))]
    elif c["shape"] == "wide":
        f = []
        left = {}
        # without LEB128 numbers it's compiled, without members of variable size as well it's read in one piece, and with bit-fields
        # and structures gone too in one block
        some = [k for k in KINDS if c["r"] % 4 == 0 or k != "leb" and (c["r"] % 4 == 1 or k not in ("cz", "u16z") and (c["r"] % 4 == 2 or k[0] not in "SUbB" and k != "Eb4"))]
        for i in range(c["n"]):
            t = KINDS[src.pick(some)]
            if src.bool(1, 8):
                # nothing at all, or a lot
                t = ("arr", ("s", src.pick(["char", "char", "uint8", "uint16", "wchar", "int24"])), ("n", src.pick([0, 0, 0, 40, 99, 130])))
            f.append(F(f"f{i}", *t) if isinstance(t[0], tuple) else F(f"f{i}", t))
        # bit-fields that would not fit into what is left of their unit are given a fresh unit
        out, unit, room = [], None, 0
        for x in f:
            if x["b"]:
                from lib.model import SCALARS

                u = "uint16" if x["t"][0] == "enum" else x["t"][1]
                size = SCALARS[u][1] * 8
                if u == unit and 0 < room < x["b"]:
                    out.append(F(f"s{len(out)}", ("s", "uint8")))
                    unit, room = None, 0
                if u != unit or room == 0:
                    unit, room = u, size
                room -= x["b"]
            else:
                unit, room = None, 0
            out.append(x)
        f = out
    elif c["shape"] == "deep":
        t = src.pick([("st", "S"), ("s", "uint16"), ("arr", ("s", "char"), ("z",)), ("arr", ("s", "int24"), ("n", 2))])
        fixed = t[0] != "arr" or t[2][0] == "n"
        for i in range(c["n"]):
            kind = src.pick(["struct", "struct", "inline", "anon", "array", "union"] if fixed else ["struct", "inline", "anon", "array"])
            body = [F(f"a{i}", ("s", src.pick(["uint8", "uint32", "char", "int24"])))]
            name = f"D{i}"
            if kind == "union":
                body = [F(f"v{i}", t)] + body
                defs.append({"k": "union", "n": name, "f": body})
                t = ("st", name)
            elif kind in ("struct", "array"):
                inner = ("arr", t, ("n", 1)) if kind == "array" else t
                defs.append({"k": "struct", "n": name, "f": [*body, F(f"v{i}", inner), F(f"z{i}", ("s", "uint16"))]})
                t = ("st", name)
            else:
                d = {"k": "struct", "n": None, "f": [F(f"v{i}", t), *body]}
                defs.append({"k": "struct", "n": name, "f": [F(f"w{i}", ("s", "uint16")), F(None if kind == "anon" else f"i{i}", ("inl", d))]})
                t = ("st", name)
        f = [F("a", ("s", "uint8")), F("deep", t), F("z", ("s", "uint32"))]
    else:
        n = c["n"]
        big = {"k": "struct", "n": "B", "f": [F("h", ("s", "uint16")), F("d", ("arr", ("s", src.pick(["uint8", "char", "uint16"])), ("n", n))), F("e", ("s", "uint32"))]}
        un = {"k": "union", "n": "BU", "f": [F("x", ("s", "uint32")), F("b", ("st", "B")), F("y", ("arr", ("s", "uint8"), ("n", 3)))]}
        defs += [big, un]
        t = src.pick([("st", "B"), ("arr", ("st", "B"), ("n", 3)), ("st", "BU"), ("arr", ("st", "BU"), ("n", 2))])
        f = [F("a", ("s", "uint8")), F("b", ("s", "uint16"), 5), F("big", t), F("c", ("s", "uint16"), 5), F("z", ("s", "uint32"))]
    defs.append({"k": "struct", "n": "T", "f": f})
    return {"endian": c["endian"], "align": c["align"], "ptr": "uint16", "consts": [], "defs": defs}


def case(c):
    """-> program, environment, value, encoding, mask, dirty bytes"""
    p = prog(c)
    env = Env(p)
    src = Source(seed=repr(c), limit=1 << 30)
    if c["shape"] == "long":
        n, form, t = c["n"], c["form"], ELEMS[c["el"]]
        vals = Values(src, env)
        if env.is_char(t):
            a = src.int(1, 250)
            x = (bytes((a + 7 * i) % 255 + 1 for i in range(251)) * (n // 251 + 1))[:n]
        elif env.is_wchar(t):
            x = ("Ab\u0100\u00ff\ud7ffz\U00010400" * (n // 8 + 1))[:n] if n > 2 else "a" * n
            x = x.encode("utf-16-le")[: 2 * n].decode("utf-16-le", "ignore")
            x += "q" * (n - len(x.encode("utf-16-le")) // 2)
        else:
            some = [vals.value(t, {}, nonzero=form == "z") for _ in range(29)]
            some = [y if form != "z" or not env.zero(t, y) else {"p": 1, "q": 0} for y in some]
            x = (some * (n // 29 + 1))[:n]
        v = {"n": n, "k": 0x7E, "x": x}
        if form != "o":
            v |= {"tail": 0xABCD, "last": b"!"}
    else:
        v = gen_value(src, env, TOP)
    raw, mask = env.dumps(TOP, v)
    return p, env, v, raw, mask, dirty(src, raw, mask) if len(raw) < 40000 else raw


def nontrivial(c):
    return ["nontrivial", c["shape"]]
