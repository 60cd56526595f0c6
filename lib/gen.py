"""Structured generators of programs (definitions), values and inputs.  See lib/model.py for the representation."""

from __future__ import annotations

import math
import struct

from lib.model import ALIASES, FLOAT_FMT, SCALARS, Env, Reject, canon, expr_ids, expr_text, order, utf16
from lib.src import int_value

INTS = ["uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "uint24", "int24", "uint48", "int48",
        "uint128", "int128"]  # fmt: skip
FLOATS = ["float", "double", "float16"]
LEBS = ["uleb128", "ileb128"]
PTRS = ["uint64", "uint32", "uint16", "uint8", "uint24", "uint48"]
ALIAS_OF = {}
for _k, _v in ALIASES.items():
    ALIAS_OF.setdefault(_v, []).append(_k)

NAMES = ["a", "b", "c", "d", "e", "f", "g", "h", "k", "m", "n", "x", "y", "z", "len1", "data", "value", "name", "count",
         "aa", "ab", "enumx", "structure", "unions", "typedefs", "flagged", "stream", "result", "buf", "r", "s", "o",
         "self", "cls", "EOFx", "sizeof_", "uint8x", "_a", "A1", "other", "cs_", "i", "defined", "int_", "u8_"]  # fmt: skip
# also names of class attributes, which are fine as long as they are not folded into another structure
PLAIN_NAMES = ["size", "type", "fields", "alignment", "dynamic", "lookup"]


class Opt:
    """What a generator may produce."""

    ints = True
    floats = True
    chars = True
    wchars = True
    lebs = True
    enums = True
    flags = True
    ptrs = True
    bits = True
    unions = True
    nested = True
    anon = True
    fixed = True  # fixed arrays
    expr = True
    zterm = True
    eof = True
    multi = True
    consts = True
    aliases = True
    aligned = True
    bang = True  # endian "!"
    empty = True  # empty structures / zero counts
    maxfields = 6
    depth = 2
    maxcount = 4
    helpers = 2
    only_fixed = False  # only fixed-size types
    huge = False  # inputs are arbitrary, so counts may be huge: no elements without bytes under computed counts
    wide = True  # 24, 48 and 128 bit integers
    mixed = False  # definitions loaded one by one, in alignment modes (and by compilers) of their own
    ptrtypes = PTRS  # (counts may depend on the width of pointers: not to be changed afterwards)

    def __init__(self, **kw):
        for k, v in kw.items():
            if not hasattr(type(self), k):
                raise AttributeError(k)
            setattr(self, k, v)


class Gen:
    def __init__(self, src, opt=None):
        self.src = src
        self.o = opt or Opt()
        self.p = None
        self.env = None

    # -- program
    def prog(self):
        src, o = self.src, self.o
        endian = src.weighted([(5, "<"), (5, ">"), (1 if o.bang else 0, "!")])
        self.p = {
            "endian": endian,
            "align": src.bool(1, 2) if o.aligned else False,
            "ptr": src.pick(o.ptrtypes),
            "consts": [],
            "defs": [],
        }
        mixed = o.mixed and o.aligned and src.bool(1, 8)
        if mixed:
            self.p["align"] = True
        if o.consts:
            for i in range(src.weighted([(3, 0), (2, 1), (1, 2)])):
                self.p["consts"].append((f"K{i}", src.int(0, 5)))
        self.refresh()
        if o.enums or o.flags:
            for i in range(src.weighted([(2, 0), (3, 1), (2, 2)])):
                self.p["defs"].append(self.enum(f"E{i}"))
                self.refresh()
        if o.nested:
            for i in range(src.int(0, o.helpers)):
                kind = "union" if o.unions and src.bool(1, 4) else "struct"
                self.p["defs"].append(self.mode(mixed, self.sdef(f"S{i}", kind, o.depth - 1, o.only_fixed or kind == "union")))
                self.refresh()
        self.p["defs"].append(self.mode(mixed, self.sdef("T", "struct", o.depth, o.only_fixed, top=True)))
        self.refresh()
        return self.p

    def mode(self, mixed, d):
        if mixed:
            d["al"], d["mc"] = self.src.bool(), self.src.bool(1, 4)
        return d

    def refresh(self):
        self.env = Env(self.p)

    def int_scalar(self):
        src = self.src
        pool = INTS if self.o.wide else INTS[:8]
        return src.pick(pool) if src.bool(2, 3) else src.pick(INTS[:8])

    def spell(self, name):
        if self.o.aliases and name in ALIAS_OF and self.src.bool(1, 6):
            return self.src.pick(ALIAS_OF[name])
        return name

    def enum(self, name):
        src = self.src
        kind = "enum" if not self.o.flags or (self.o.enums and src.bool(2, 3)) else "flag"
        under = self.int_scalar()
        _, size, signed, _ = SCALARS[under]
        lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
        members, prev, used = [], (0 if kind == "flag" else -1), 0
        for i in range(src.int(1, 5)):
            if kind == "flag":
                nxt = 1 << max(prev, 0).bit_length() if i else 1
            else:
                nxt = prev + 1
            if i == 0 and kind == "enum":
                nxt = 0
            form = src.int(0, 3)
            e = None
            if form == 2:
                v = src.int(0, min(hi, 40))
                e = ("num", v, hex(v) if src.bool() else str(v))
            elif form == 3:
                v = int_value(src, 8 * size, signed)
                if kind == "flag":
                    v = abs(v)
                    v = v if v <= hi else 0
                e = ("num", v, str(v)) if v >= 0 else ("un", "-", ("num", -v, str(-v)))
            elif form == 1 and members:
                ref = src.pick(members)[0]
                e = ("bin", src.pick("+|"), ("id", ref), ("num", 1, "1")) if src.bool() else ("id", ref)
            if e is None:
                v = nxt
            else:
                trial = {"k": kind, "n": name, "u": under, "m": [*members, (f"M{i}", e)]}
                v = self.env._number(trial)[f"M{i}"]
            if not lo <= v <= hi:
                e, v = ("num", 0, "0"), 0
            members.append((f"M{i}", e))
            prev = v
        return {"k": kind, "n": name, "u": under, "m": members}

    # -- structures
    def sdef(self, name, kind, depth, fixed, names=None, top=False, folded=False):
        src, o = self.src, self.o
        names = set() if names is None else names
        fields, scope = [], []
        d = {"k": kind, "n": name, "f": fields}
        if name and src.bool(1, 4):
            d["style"] = src.int(1, 2)
        n = src.int(1, o.maxfields)
        if o.empty and not folded and kind == "struct" and src.bool(1, 40):
            n = 0
        unit = [None, 0]  # current bit-field storage type and bits left
        while len(fields) < n:
            if o.bits and kind == "struct" and src.bool(1, 4):
                for _ in range(src.int(1, 4)):
                    fields.append(self.bitfield(unit, names, scope, folded))
                continue
            unit = [None, 0]
            if o.anon and o.nested and depth > 0 and src.bool(1, 10):
                k = "union" if o.unions and src.bool(1, 2) else "struct"
                inner = self.sdef(None, k, depth - 1, fixed or k == "union", names=names, folded=True)
                fields.append({"n": None, "t": ("inl", inner), "b": None})
                continue
            t = self.typ(depth, fixed or kind == "union", scope, last=top and len(fields) == n - 1)
            if (self.env.size(t) or 0) > 500:
                t = ("s", "uint8")  # keep cases small
            f = {"n": self.fname(names, folded), "t": t, "b": None}
            fields.append(f)
            if t[0] in ("enum", "flag") or (t[0] == "s" and SCALARS[canon(t[1])][0] in ("int", "leb")):
                scope.append(f)
        return d

    def fname(self, names, folded=False):
        src = self.src
        if not folded and src.bool(1, 12):
            c = src.pick(PLAIN_NAMES)
            if c not in names:
                names.add(c)
                return c
        i = src.int(0, len(NAMES) - 1)
        while NAMES[i % len(NAMES)] in names:
            i += 1
            if i > 2 * len(NAMES):
                c = f"f{len(names)}"
                while c in names:
                    c += "_"
                names.add(c)
                return c
        c = NAMES[i % len(NAMES)]
        names.add(c)
        return c

    def bit_type(self):
        src = self.src
        enums = [d for d in self.p["defs"] if d["k"] in ("enum", "flag")]
        if enums and src.bool(1, 4):
            d = src.pick(enums)
            return (d["k"], d["n"])
        if self.o.chars and src.bool(1, 15):
            return ("s", "char")
        return ("s", self.spell(self.int_scalar()))

    def bitfield(self, unit, names, scope, folded):
        src = self.src
        t = None
        if unit[1] and src.bool(5, 6):
            # stay in the unit: the same storage type, possibly by another name
            t = ("s", self.spell(unit[0])) if unit[0] != "char" else ("s", "char")
            same = [d for d in self.p["defs"] if d["k"] in ("enum", "flag") and canon(d["u"]) == unit[0]]
            if same and src.bool(1, 3):
                d = src.pick(same)
                t = (d["k"], d["n"])
        else:
            t = self.bit_type()
        u = self.env.under(t)
        left = unit[1] if u == unit[0] and unit[1] else SCALARS[u][1] * 8
        w = src.weighted([(3, None), (1, left), (1, 1)])
        if w is None:
            w = src.int(1, min(left, 12)) if src.bool(3, 4) else src.int(1, left)
        unit[0], unit[1] = u, left - w
        f = {"n": self.fname(names, folded), "t": t, "b": w}
        if u != "char":
            scope.append(f)
        return f

    # -- types
    def typ(self, depth, fixed, scope, last=False):
        src, o = self.src, self.o
        arrays = o.fixed or (not fixed and (o.expr or o.zterm or o.eof))
        if last and o.eof and not fixed and not self.p["align"] and src.bool(1, 3):
            return self.arr(depth, fixed, scope, last, "eof")
        if arrays and src.bool(2, 5):
            return self.arr(depth, fixed, scope, last)
        return self.base(depth, fixed)

    def base(self, depth, fixed, zero_ok=True):
        """A type that is not an array."""
        src, o = self.src, self.o
        enums = [d for d in self.p["defs"] if d["k"] in ("enum", "flag")]
        structs = [
            d for d in self.p["defs"]
            if d["k"] in ("struct", "union")
            and (not fixed or self.env.layout(d)["size"] is not None)
            and (zero_ok or self.env.layout(d)["size"] != 0)
        ]  # fmt: skip
        opts = [(8 if o.ints else 0, "int"), (3 if o.chars else 0, "char"), (2 if o.wchars else 0, "wchar"),
                (2 if o.floats else 0, "float"), (2 if o.lebs and not fixed else 0, "leb"), (3 if enums else 0, "enum"),
                (2 if o.ptrs else 0, "ptr"), (3 if structs and o.nested else 0, "st"),
                (2 if o.nested and depth > 0 else 0, "inl")]  # fmt: skip
        k = src.weighted([x for x in opts if x[0]])
        if k == "int":
            return ("s", self.spell(self.int_scalar()))
        if k == "char":
            return ("s", "char")
        if k == "wchar":
            return ("s", self.spell("wchar"))
        if k == "float":
            return ("s", src.pick(FLOATS))
        if k == "leb":
            return ("s", src.pick(LEBS))
        if k == "enum":
            d = src.pick(enums)
            return (d["k"], d["n"])
        if k == "ptr":
            return self.pointer()
        if k == "st":
            return ("st", src.pick(structs)["n"])
        kind = "union" if o.unions and src.bool(1, 3) else "struct"
        return ("inl", self.sdef(None, kind, depth - 1, fixed or kind == "union"))

    def pointer(self):
        src = self.src
        named = [(d["k"] if d["k"] in ("enum", "flag") else "st", d["n"]) for d in self.p["defs"]]
        t = src.weighted([(3, 0), (2, 1), (1, 2), (1, 3 if named else 0)])
        if t == 0:
            tgt = ("s", self.int_scalar())
        elif t == 1:
            tgt = ("s", "char")
        elif t == 2:
            tgt = ("s", "void")
        else:
            tgt = src.pick(named)
        if src.bool(1, 5):
            tgt = ("ptr", tgt)
        return ("ptr", tgt)

    def const_count(self, n):
        """Length ("n", value[, expression]) with an optional constant expression."""
        src = self.src
        if not src.bool(1, 5):
            return ("n", n)
        k = self.p["consts"]
        form = src.int(0, 4)
        if form == 4:
            # the size of a type that was defined before
            sized = [d["n"] for d in self.p["defs"] if self.env.sizeof_name(d["n"]) is not None]
            if sized:
                name = src.pick(sized)
                d = self.env.sizeof_name(name) - n
                return ("n", n, ("bin", "-" if d >= 0 else "+", ("sizeof", name), ("num", abs(d), str(abs(d)))))
        if form == 0:
            c = src.int(0, n)
            return ("n", n, ("bin", "+", ("num", c, str(c)), ("num", n - c, str(n - c))))
        if form == 1 and k:
            name, v = src.pick(k)
            if v <= n:
                return ("n", n, ("bin", "+", ("id", name), ("num", n - v, hex(n - v))))
            return ("n", n, ("bin", "-", ("id", name), ("num", v - n, hex(v - n))))
        if form == 2:
            return ("n", n, ("bin", "*", ("sizeof", "uint16"), ("num", n // 2, str(n // 2)))) if n % 2 == 0 else (
                "n", n, ("bin", "-", ("sizeof", "uint32"), ("num", 4 - n, str(4 - n)))) if n <= 4 else ("n", n)  # fmt: skip
        return ("n", n, ("num", n, hex(n)))

    def count_expr(self, scope):
        """Expression over fields of the scope whose value stays small (see ``loose_ids``)."""
        src = self.src
        f = src.pick(scope[::-1])
        ident = ("id", f["n"])
        form = src.weighted([(5, 0), (3, 1), (2, 2), (2, 3), (1, 4), (1, 5), (1, 6)])
        if form == 0:
            return ident
        if form == 1:
            m = src.pick([3, 1, 5])
            return ("bin", "&", ident, ("num", m, str(m)))
        if form == 2:
            c = src.int(1, 3)
            return ("bin", src.pick("+-"), ident, ("num", c, str(c)))
        if form == 3:
            return ("bin", "*", ident, ("num", 2, "2"))
        if form == 4 and self.p["consts"]:
            return ("bin", "+", ident, ("id", src.pick(self.p["consts"])[0]))
        if form == 5:
            g = src.pick(scope)
            return ("bin", "+", ("bin", "&", ident, ("num", 3, "0x3")), ("id", g["n"]))
        if form == 6:
            return ("bin", "-", ("num", 3, "3"), ident)
        return ident

    def arr(self, depth, fixed, scope, last, form=None):
        src, o = self.src, self.o
        forms = [(6 if o.fixed else 0, "n")]
        if not fixed:
            forms += [(4 if o.expr and scope else 0, "e"), (3 if o.zterm else 0, "z"),
                      (3 if o.eof and last and not self.p["align"] else 0, "eof")]  # fmt: skip
        forms = [x for x in forms if x[0]]
        if not forms:
            return self.base(depth, fixed)
        form = form or src.weighted(forms)
        if form == "z":
            t = self.zterm_elem(depth)
            t = ("arr", t, ("z",))
            if o.multi and o.fixed and src.bool(1, 5):
                t = ("arr", t, ("n", src.int(0 if o.empty else 1, 2)))
            return t
        t = self.base(depth, fixed, zero_ok=form != "eof")
        if (self.env.size(t) or 0) > 60:
            return t
        if o.multi and o.fixed and src.bool(1, 4):
            for _ in range(src.int(1, 2)):
                t = ("arr", t, self.const_count(src.int(1, 3)))
        if form == "n":
            lo = 0 if o.empty and src.bool(1, 8) else 1
            hi = o.maxcount
            n = src.int(lo, hi) if not src.bool(1, 12) else src.int(lo, hi * 6)
            return ("arr", t, self.const_count(n))
        if form == "e":
            if o.huge and may_be_empty(self.env, t):
                return ("arr", t, ("n", 1))
            return ("arr", t, ("e", self.count_expr(scope)))
        if may_be_empty(self.env, t):
            return ("arr", t, ("n", 1))
        return ("arr", t, ("eof",))

    def zterm_elem(self, depth):
        src, o = self.src, self.o
        enums = [d for d in self.p["defs"] if d["k"] in ("enum", "flag")]
        structs = [d for d in self.p["defs"] if d["k"] == "struct" and self.all_int(("st", d["n"]))]
        k = src.weighted([(3 if o.chars else 0, "char"), (3 if o.ints else 0, "int"), (2 if o.wchars else 0, "wchar"),
                          (2 if o.lebs else 0, "leb"), (2 if enums else 0, "enum"), (3 if structs and o.nested else 0, "st"),
                          (1 if o.nested and depth > 0 else 0, "inl")])  # fmt: skip
        if k in ("char", "wchar"):
            return ("s", k)
        if k == "int":
            return ("s", self.spell(self.int_scalar()))
        if k == "leb":
            return ("s", src.pick(LEBS))
        if k == "enum":
            d = src.pick(enums)
            return (d["k"], d["n"])
        if k == "st":
            return ("st", src.pick(structs)["n"])
        names, fields, unit, scope = set(), [], [None, 0], []
        for _ in range(src.int(1, 3)):
            if o.bits and src.bool(1, 3):
                u = src.pick(INTS[:8])
                w = src.int(1, SCALARS[u][1] * 8)
                if fields and fields[-1]["b"] and fields[-1]["t"] == ("s", u):
                    w = None
                fields.append({"n": self.fname(names), "t": ("s", u), "b": w})
            else:
                fields.append({"n": self.fname(names), "t": ("s", self.int_scalar()), "b": None})
        return ("inl", {"k": "struct", "n": None, "f": fields})

    def all_int(self, t):
        """A structure with integer members only (nested too), at least one byte of data."""
        d = self.env.sdef(t)
        if not d["f"]:
            return False
        for f in d["f"]:
            x = f["t"]
            if x[0] in ("enum", "flag"):
                continue
            if x[0] == "s" and SCALARS[canon(x[1])][0] in ("int", "leb"):
                continue
            if x[0] in ("st", "inl") and self.env.sdef(x)["k"] == "struct" and self.all_int(x):
                continue
            return False
        return True


def may_be_empty(env, t):
    """Can an encoding of t have no bytes at all?"""
    if t[0] == "arr":
        return t[2][0] in ("e", "eof") or (t[2][0] == "n" and (t[2][1] <= 0 or may_be_empty(env, t[1])))
    if t[0] in ("st", "inl"):
        return all(may_be_empty(env, f["t"]) for f in env.sdef(t)["f"])
    return t == ("s", "void")


def gen_prog(src, **kw):
    return Gen(src, Opt(**kw)).prog()


# --- values ----------------------------------------------------------------------------------------------------------
def loose_ids(e):
    """Identifiers whose value is not bounded by a mask in the expression."""
    if e[0] == "id":
        return {e[1]}
    if e[0] == "bin" and e[1] in "&%" and (e[2][0] == "num" or e[3][0] == "num"):
        return set()
    out = set()
    for x in e[1:]:
        if isinstance(x, tuple):
            out |= loose_ids(x)
    return out


def lens(t):
    while t[0] == "arr":
        yield t[2]
        t = t[1]


def small_names(d):
    out = set()
    for f in d["f"]:
        for ln in lens(f["t"]):
            if ln[0] == "e":
                out |= loose_ids(ln[1])
    return out


class Values:
    def __init__(self, src, env, maxcount=4):
        self.src = src
        self.env = env
        self.maxcount = maxcount

    def value(self, t, ctx=None, bits=None, small=False, nonzero=False):
        src, env = self.src, self.env
        k = t[0]
        if bits:
            return src.int(0, min(4, (1 << bits) - 1)) if small else int_value(src, bits, False)
        if k in ("s", "enum", "flag", "ptr"):
            kind, size, signed, _ = env.scalar(t)
            if kind == "void":
                return None
            if small:
                return src.weighted([(3, 1), (2, 2), (2, 0), (1, 3), (1, 4), (1, -1 if signed and k == "s" else 1)])
            if kind in ("int", "leb"):
                w = 8 * size if size else src.pick([7, 8, 14, 15, 21, 32, 64, 70])
                if k in ("enum", "flag") and src.bool(1, 2):
                    v = src.pick(sorted(env.enums[t[1]].values()))
                else:
                    v = int_value(src, w, signed)
                if nonzero and not v:
                    v = 1
                return v
            if kind == "float":
                raw = src.bytes(size) if src.bool() else struct.pack("<" + FLOAT_FMT[size], src.int(-3, 100) / 4)
                v = struct.unpack("<" + FLOAT_FMT[size], raw)[0]
                return 0.0 if math.isnan(v) else v
            if kind == "char":
                return bytes([src.int(1 if nonzero else 0, 255)])
            return self.wtext(1, nonzero)
        if k == "arr":
            return self.array(t, ctx or {})
        d = env.sdef(t)
        if d["k"] == "union":
            return self.union(d)
        small_set = small_names(d)
        out = {}
        for i, f in enumerate(d["f"]):
            out[env.key(d, i)] = self.value(f["t"], out, f.get("b"), small=f["n"] in small_set)
        return out

    def union(self, d):
        env = self.env
        raw = self.src.bytes(env.layout(d)["size"])
        try:
            v, _, _ = env.parse(("inl", d), raw)
            ok = not has_nan(v)
        except Reject:
            ok = False
        if not ok:
            raw = bytes(x & 0x77 for x in raw)
            v, _, _ = env.parse(("inl", d), raw)
        return v

    def wtext(self, units, nonzero=False):
        src = self.src
        out = ""
        while units:
            k = src.int(0, 6)
            if units >= 2 and k == 5:
                out += chr(src.int(0x10000, 0x10FFFF))
                units -= 2
                continue
            if k == 6:
                # code units that mean something somewhere: byte order marks, line ends, borders of the surrogates
                out += chr(src.pick(UNITS))
                units -= 1
                continue
            if k <= 2:
                c = src.int(0x20, 0x7E)
            elif k == 3:
                c = src.int(1 if nonzero else 0, 0xFF)
            else:
                c = src.int(1 if nonzero else 0, 0xFFFF)
                if 0xD800 <= c < 0xE000:
                    c ^= 0x2000
            out += chr(c)
            units -= 1
        return out

    def array(self, t, ctx):
        src, env = self.src, self.env
        et, ln = t[1], t[2]
        if ln[0] == "n":
            n = max(0, ln[1])
        elif ln[0] == "e":
            n = env.count(ln[1], ctx)
            if n > 64:
                raise Reject("large count")
        else:
            n = src.size(0, self.maxcount)
        z = ln[0] == "z"
        if env.is_char(et):
            return bytes(self.runs([src.int(1 if z else 0, 255) for _ in range(n)], RUN_BYTES[1:] if z else RUN_BYTES))
        if env.is_wchar(et):
            text = self.wtext(n, z)
            # only whole characters can be replaced
            return text if len(text) != n else "".join(self.runs(list(text), [chr(x) for x in (RUN_UNITS[1:] if z else RUN_UNITS)]))
        out = []
        for _ in range(n):
            v = self.value(et, ctx, nonzero=z)
            if z and env.zero(et, v):
                continue
            out.append(v)
        if len(out) > 1 and et[0] in ("s", "enum", "flag", "ptr"):
            return self.runs(out, [out[-1]] if z else [env.default(et), env.default(et), out[-1]])
        return out

    def runs(self, items, specials):
        """Sometimes make the first or last few items (or all of them) the same."""
        src = self.src
        if not items or not src.bool(1, 5):
            return items
        x = src.pick(specials)
        k = src.int(0, 2)
        n = len(items) if k == 2 else src.int(1, min(len(items), 4))
        return items[:-n] + [x] * n if k == 0 else [x] * n + items[n:]


RUN_BYTES = [0, 0x20, 0x0A, 0x0D, 0x09, 0xFF, 0x80, 0x22]
RUN_UNITS = [0, 0x20, 0x0A, 0x0D, 0x09, 0xFEFF, 0xFFFF, 0x100, 0x2000]
UNITS = [0x41, 0x100, 0x4100, 0x0A, 0x0D, 0x0A00, 0x0D00, 0x1A, 0x20, 0x2000, 0x2028, 0x7F, 0x80, 0x8000, 0xFF, 0xFF00, 0xD7FF, 0xE000, 0xFEFF, 0xFFFE, 0xFFFD, 0xFFFF]  # fmt: skip


def has_nan(v):
    if isinstance(v, dict):
        return any(has_nan(x) for x in v.values())
    if isinstance(v, list):
        return any(has_nan(x) for x in v)
    return isinstance(v, float) and math.isnan(v)


def gen_value(src, env, t, maxcount=4):
    return Values(src, env, maxcount).value(t)


def dirty(src, raw, mask):
    """The bytes with every bit that carries no data set at random."""
    if all(m == 0xFF for m in mask):
        return bytes(raw)
    fill = src.pick(["ff", "rand", "00"])
    if fill == "00":
        return bytes(raw)
    noise = b"\xff" * len(raw) if fill == "ff" else src.bytes(len(raw))
    return bytes((r & m) | (n & ~m & 0xFF) for r, m, n in zip(raw, mask, noise))


# --- features --------------------------------------------------------------------------------------------------------
def features(env, t):
    out = set()
    for x in env.walk(t):
        k = x[0]
        if k == "s":
            out.add(SCALARS[canon(x[1])][0])
        elif k == "arr":
            out.add("arr-" + x[2][0])
            if x[1][0] == "arr":
                out.add("multi")
        elif k in ("st", "inl"):
            d = env.sdef(x)
            out.add(d["k"] + ("-inline" if k == "inl" else ""))
            if any(f.get("b") for f in d["f"]):
                out.add("bits")
            if any(f["n"] is None for f in d["f"]):
                out.add("anon")
        else:
            out.add(k)
    out.add("mixed" if env._al else "aligned" if env.align else "packed")
    out.add("le" if env.endian == "<" else "be")
    return out
