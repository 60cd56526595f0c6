"""Independent reference model of cstruct definitions, written from the property texts.

A program is plain data (Python literals only)::

    {"endian": "<", "align": False, "ptr": "uint32", "consts": [(name, int)], "defs": [definition, ...]}

    definition  {"k": "struct"|"union", "n": name, "f": [field, ...]}
                {"k": "enum"|"flag", "n": name, "u": scalar name, "m": [(member, None | expr), ...]}
    field       {"n": name or None, "t": type, "b": bit count or None}
    type        ("s", scalar) ("enum", name) ("st", name) ("inl", definition) ("ptr", type) ("arr", type, length)
    length      ("n", count) ("e", expr) ("z",) ("eof",)
    expr        ("num", int, text) ("id", name) ("un", op, e) ("bin", op, a, b) ("sizeof", name) ("par", e)

Values are plain data as well: int, float, bytes (char, char arrays), str (wchar, wchar arrays), None (void), list and
dict (structures; anonymous members under "#<field index>"; unions carry their bytes under "#raw").
"""

from __future__ import annotations

import struct

# name: (kind, size, signed, alignment)
SCALARS = {
    "int8": ("int", 1, True, 1),
    "uint8": ("int", 1, False, 1),
    "int16": ("int", 2, True, 2),
    "uint16": ("int", 2, False, 2),
    "int24": ("int", 3, True, 4),
    "uint24": ("int", 3, False, 4),
    "int32": ("int", 4, True, 4),
    "uint32": ("int", 4, False, 4),
    "int48": ("int", 6, True, 8),
    "uint48": ("int", 6, False, 8),
    "int64": ("int", 8, True, 8),
    "uint64": ("int", 8, False, 8),
    "int128": ("int", 16, True, 16),
    "uint128": ("int", 16, False, 16),
    "float16": ("float", 2, True, 2),
    "float": ("float", 4, True, 4),
    "double": ("float", 8, True, 8),
    "char": ("char", 1, False, 1),
    "wchar": ("wchar", 2, False, 2),
    "uleb128": ("leb", None, False, 1),
    "ileb128": ("leb", None, True, 1),
    "void": ("void", 0, False, 1),
}
FLOAT_FMT = {2: "e", 4: "f", 8: "d"}

ALIASES = {
    "signed char": "int8", "unsigned char": "char", "short": "int16", "signed short": "int16",
    "unsigned short": "uint16", "int": "int32", "signed int": "int32", "unsigned int": "uint32", "long": "int32",
    "signed long": "int32", "unsigned long": "uint32", "long long": "int64", "signed long long": "int64",
    "unsigned long long": "uint64", "BYTE": "uint8", "CHAR": "char", "SHORT": "int16", "WORD": "uint16",
    "DWORD": "uint32", "LONG": "int32", "LONG32": "int32", "LONG64": "int64", "LONGLONG": "int64", "QWORD": "uint64",
    "OWORD": "uint128", "WCHAR": "wchar", "UCHAR": "uint8", "USHORT": "uint16", "ULONG": "uint32",
    "ULONG64": "uint64", "ULONGLONG": "uint64", "INT": "int32", "INT8": "int8", "INT16": "int16", "INT32": "int32",
    "INT64": "int64", "INT128": "int128", "UINT": "uint32", "UINT8": "uint8", "UINT16": "uint16", "UINT32": "uint32",
    "UINT64": "uint64", "UINT128": "uint128", "__int8": "int8", "__int16": "int16", "__int32": "int32",
    "__int64": "int64", "__int128": "int128", "unsigned __int8": "uint8", "unsigned __int16": "uint16",
    "unsigned __int32": "uint32", "unsigned __int64": "uint64", "unsigned __int128": "uint128", "wchar_t": "wchar",
    "int8_t": "int8", "int16_t": "int16", "int32_t": "int32", "int64_t": "int64", "int128_t": "int128",
    "uint8_t": "uint8", "uint16_t": "uint16", "uint32_t": "uint32", "uint64_t": "uint64", "uint128_t": "uint128",
    "_BYTE": "uint8", "_WORD": "uint16", "_DWORD": "uint32", "_QWORD": "uint64", "_OWORD": "uint128", "u1": "uint8",
    "u2": "uint16", "u4": "uint32", "u8": "uint64", "u16": "uint128", "__u8": "uint8", "__u16": "uint16",
    "__u32": "uint32", "__u64": "uint64", "uchar": "uint8", "ushort": "uint16", "uint": "uint32", "ulong": "uint32",
}  # fmt: skip


class Eof(Exception):
    """The input ends before the last data-carrying byte."""


class Reject(Exception):
    """The value or definition is outside the modelled domain (generators avoid it)."""


def canon(name):
    return ALIASES.get(name, name)


def order(endian):
    return "little" if endian == "<" else "big"


def utf16(endian):
    return "utf-16-le" if endian == "<" else "utf-16-be"


def up(n, a):
    return -(-n // a) * a


# --- expressions -----------------------------------------------------------------------------------------------------
BINOPS = {
    "|": lambda a, b: a | b,
    "^": lambda a, b: a ^ b,
    "&": lambda a, b: a & b,
    "<<": lambda a, b: a << b,
    ">>": lambda a, b: a >> b,
    "+": lambda a, b: a + b,
    "-": lambda a, b: a - b,
    "*": lambda a, b: a * b,
    "/": lambda a, b: a // b,
    "%": lambda a, b: a % b,
}
PREC = {"|": 1, "^": 2, "&": 3, "<<": 4, ">>": 4, "+": 5, "-": 5, "*": 6, "/": 6, "%": 6}


def ev(e, lookup, sizeof):
    k = e[0]
    if k == "num":
        return e[1]
    if k == "id":
        return lookup(e[1])
    if k == "un":
        v = ev(e[2], lookup, sizeof)
        return -v if e[1] == "-" else ~v
    if k == "bin":
        a = ev(e[2], lookup, sizeof)
        b = ev(e[3], lookup, sizeof)
        return BINOPS[e[1]](a, b)
    if k == "sizeof":
        return sizeof(e[1])
    return ev(e[1], lookup, sizeof)  # par


def expr_text(e, prec=0, sp=" "):
    """Minimal parentheses, as C needs them (left associative)."""
    k = e[0]
    if k == "num":
        return e[2]
    if k == "id":
        return e[1]
    if k == "sizeof":
        return f"sizeof({e[1]})"
    if k == "par":
        return f"({expr_text(e[1], 0, sp)})"
    if k == "un":
        return f"{e[1]}{expr_text(e[2], 7, sp)}"
    p = PREC[e[1]]
    s = f"{expr_text(e[2], p, sp)}{sp}{e[1]}{sp}{expr_text(e[3], p + 1, sp)}"
    return f"({s})" if p < prec else s


def expr_ids(e):
    if e[0] == "id":
        return {e[1]}
    out = set()
    for x in e[1:]:
        if isinstance(x, tuple):
            out |= expr_ids(x)
    return out


# --- leb128 ----------------------------------------------------------------------------------------------------------
def leb_encode(v, signed):
    if not signed and v < 0:
        raise Reject("negative uleb128")
    out = bytearray()
    while True:
        b = v & 0x7F
        v >>= 7
        if signed:
            last = (v == 0 and not b & 0x40) or (v == -1 and b & 0x40)
        else:
            last = v == 0
        out.append(b if last else b | 0x80)
        if last:
            return bytes(out)


class Buf:
    """Input of a parse: remembers which bits carry data and the end of the last data-carrying byte."""

    def __init__(self, data):
        self.data = bytes(data)
        self.mask = bytearray(len(self.data))
        self.need = 0
        self.partial = False  # a trailing partial element was left by a to-end-of-stream array
        self.eof_form = False  # a to-end-of-stream array was read

    def take(self, pos, n):
        if n and pos + n > len(self.data):
            raise Eof
        for i in range(pos, pos + n):
            self.mask[i] = 0xFF
        if n:
            self.need = max(self.need, pos + n)
        return self.data[pos : pos + n]


class Env:
    """The model of one program."""

    def __init__(self, prog):
        self.p = prog
        self.endian = prog["endian"]
        self.align = prog["align"]
        self._al = {}
        for d in prog["defs"]:
            if "al" in d:
                self._set_al(d, d["al"])
        self.defs = {d["n"]: d for d in prog["defs"] if d.get("n")}
        self.consts = dict(prog.get("consts", ()))
        self._lay = {}
        self.enums = {}
        for d in prog["defs"]:
            if d["k"] in ("enum", "flag"):
                self.enums[d["n"]] = self._number(d)

    # -- alignment mode: that of the program, unless a definition was loaded in a mode of its own
    def _set_al(self, d, al):
        self._al[id(d)] = al
        for f in d["f"]:
            t = f["t"]
            while t[0] in ("arr", "ptr"):
                t = t[1]
            if t[0] == "inl":
                self._set_al(t[1], al)

    def aligned(self, d):
        return self._al.get(id(d), self.align)

    # -- enums
    def _number(self, d):
        vals = {}
        nxt = 1 if d["k"] == "flag" else 0
        for name, e in d["m"]:
            v = nxt if e is None else ev(e, lambda i: vals[i] if i in vals else self.consts[i], self.sizeof_name)
            vals[name] = v
            if d["k"] == "flag":
                nxt = 1
                while nxt <= abs(v):
                    nxt *= 2
            else:
                nxt = v + 1
        return vals

    # -- types
    def sdef(self, t):
        return self.defs[t[1]] if t[0] == "st" else t[1]

    def under(self, t):
        """Scalar name that stores an int-like type."""
        if t[0] == "s":
            return canon(t[1])
        if t[0] in ("enum", "flag"):
            return canon(self.defs[t[1]]["u"])
        if t[0] == "ptr":
            return canon(self.p["ptr"])
        raise Reject(t)

    def scalar(self, t):
        return SCALARS[self.under(t)]

    def size(self, t):
        """Fixed size or None."""
        k = t[0]
        if k in ("s", "enum", "flag", "ptr"):
            return self.scalar(t)[1]
        if k == "arr":
            if t[2][0] != "n":
                return None
            n = self.size(t[1])
            return None if n is None else max(0, t[2][1]) * n
        return self.layout(self.sdef(t))["size"]

    def alignof(self, t):
        k = t[0]
        if k in ("s", "enum", "flag", "ptr"):
            return self.scalar(t)[3]
        if k == "arr":
            return self.alignof(t[1])
        return self.layout(self.sdef(t))["align"]

    def sizeof_name(self, name):
        c = canon(name)
        if c in SCALARS:
            return SCALARS[c][1]
        d = self.defs[name]
        if d["k"] in ("enum", "flag"):
            return SCALARS[canon(d["u"])][1]
        return self.layout(d)["size"]

    def layout(self, d):
        key = id(d)
        if key in self._lay:
            return self._lay[key][1]
        lay = self._layout(d)
        self._lay[key] = (d, lay)
        return lay

    def _layout(self, d):
        """offsets: per field offset of the field (or of its storage unit), None after a dynamic field;
        units: per field None or (new unit?, bit position counted from the first allocated bit)."""
        if d["k"] == "union":
            size, al = 0, 1
            for f in d["f"]:
                n = self.size(f["t"])
                size = None if n is None or size is None else max(size, n)
                al = max(al, self.alignof(f["t"]))
            if self.aligned(d) and size is not None:
                size = up(size, al)
            return {"size": size, "align": al, "offsets": [0] * len(d["f"]), "units": [None] * len(d["f"])}
        off, al = 0, 1
        offsets, units = [], []
        utype, used, ubits, uoff = None, 0, 0, None
        for f in d["f"]:
            fa = self.alignof(f["t"])
            al = max(al, fa)
            if f.get("b"):
                u = self.under(f["t"])
                if u == utype and used < ubits:
                    if used + f["b"] > ubits:
                        raise Reject("straddle")
                    units.append((False, used))
                    used += f["b"]
                    offsets.append(uoff)
                    continue
                utype, ubits, used = u, SCALARS[u][1] * 8, f["b"]
                if used > ubits:
                    raise Reject("straddle")
                if off is not None:
                    if self.aligned(d):
                        off = up(off, fa)
                    uoff = off
                    off += SCALARS[u][1]
                else:
                    uoff = None
                offsets.append(uoff)
                units.append((True, 0))
                continue
            utype = None
            if off is not None and self.aligned(d):
                off = up(off, fa)
            offsets.append(off)
            units.append(None)
            n = self.size(f["t"])
            off = None if off is None or n is None else off + n
        if off is not None and self.aligned(d):
            off = up(off, al)
        return {"size": off, "align": al, "offsets": offsets, "units": units}

    def fits(self, t, v, bits=None):
        if bits:
            return 0 <= v < 1 << bits
        kind, size, signed, _ = self.scalar(t)
        if kind == "leb":
            return signed or v >= 0
        return -(1 << (8 * size - 1)) <= v < 1 << (8 * size - 1) if signed else 0 <= v < 1 << (8 * size)

    # -- reading
    def read(self, t, b, pos, ctx=None):
        """-> (value, end position)"""
        k = t[0]
        if k in ("s", "enum", "flag", "ptr"):
            kind, size, signed, _ = self.scalar(t)
            if kind == "void":
                return None, pos
            if kind == "leb":
                v = shift = 0
                while True:
                    c = b.take(pos, 1)[0]
                    pos += 1
                    v |= (c & 0x7F) << shift
                    shift += 7
                    if not c & 0x80:
                        break
                if signed and c & 0x40:
                    v -= 1 << shift
                return v, pos
            raw = b.take(pos, size)
            pos += size
            if kind == "int":
                return int.from_bytes(raw, order(self.endian), signed=signed), pos
            if kind == "float":
                return struct.unpack(("<" if self.endian == "<" else ">") + FLOAT_FMT[size], raw)[0], pos
            if kind == "char":
                return raw, pos
            try:
                return raw.decode(utf16(self.endian)), pos
            except UnicodeDecodeError:
                raise Reject("surrogate") from None
        if k == "arr":
            return self._read_arr(t, b, pos, ctx or {})
        d = self.sdef(t)
        if d["k"] == "union":
            return self._read_union(d, b, pos)
        return self._read_struct(d, b, pos)

    def count(self, e, ctx):
        def look(n):
            if n in ctx:
                v = ctx[n]
                if not isinstance(v, int):
                    raise Reject("non integer in expression")
                return v
            return self.consts[n]

        return max(0, ev(e, look, self.sizeof_name))

    def join(self, t, items):
        """Value of an array of element type t."""
        if t[0] == "s" and self.scalar(t)[0] == "char":
            return b"".join(items)
        if t[0] == "s" and self.scalar(t)[0] == "wchar":
            return "".join(items)
        return list(items)

    def is_wchar(self, t):
        return t[0] == "s" and self.scalar(t)[0] == "wchar"

    def is_char(self, t):
        return t[0] == "s" and self.scalar(t)[0] == "char"

    def _read_arr(self, t, b, pos, ctx):
        et, ln = t[1], t[2]
        if ln[0] in ("n", "e"):
            n = max(0, ln[1]) if ln[0] == "n" else self.count(ln[1], ctx)
            es = self.size(et)
            if not es and n > 2000:
                raise Reject("many elements of no or unknown size")
            if es and pos + n * es > len(b.data) and n:
                # mark what there is, then fail
                raise Eof
            if self.is_wchar(et):
                raw = b.take(pos, 2 * n)
                try:
                    return raw.decode(utf16(self.endian)), pos + 2 * n
                except UnicodeDecodeError:
                    raise Reject("surrogate") from None
            out = []
            for _ in range(n):
                v, pos = self.read(et, b, pos, ctx)
                out.append(v)
            return self.join(et, out), pos
        if ln[0] == "z":
            if self.is_wchar(et):
                raw = b""
                while True:
                    c = b.take(pos, 2)
                    pos += 2
                    if c == b"\0\0":
                        break
                    raw += c
                try:
                    return raw.decode(utf16(self.endian)), pos
                except UnicodeDecodeError:
                    raise Reject("surrogate") from None
            out = []
            while True:
                v, pos = self.read(et, b, pos, ctx)
                if self.zero(et, v):
                    return self.join(et, out), pos
                out.append(v)
        # to end of stream
        b.eof_form = True
        es = self.size(et)
        if es == 0:
            raise Reject("to-end-of-stream array of empty elements")
        out = []
        if es is not None:
            n = max(0, (len(b.data) - pos)) // es
            b.partial = b.partial or bool((len(b.data) - pos) % es)
            if self.is_wchar(et):
                raw = b.take(pos, n * 2)
                try:
                    return raw.decode(utf16(self.endian)), pos + n * 2
                except UnicodeDecodeError:
                    raise Reject("surrogate") from None
            for _ in range(n):
                v, pos = self.read(et, b, pos, ctx)
                out.append(v)
            return self.join(et, out), pos
        while pos < len(b.data):
            try:
                v, npos = self.read(et, b, pos, ctx)
            except Eof:
                b.partial = True
                break
            if npos == pos:
                raise Reject("empty element")
            pos = npos
            out.append(v)
        return self.join(et, out), pos

    @staticmethod
    def key(d, i):
        n = d["f"][i]["n"]
        return n if n is not None else f"#{i}"

    def _read_struct(self, d, b, start):
        lay = self.layout(d)
        pos, out, unit = start, {}, None
        for i, f in enumerate(d["f"]):
            off, u = lay["offsets"][i], lay["units"][i]
            if u is None or u[0]:
                if off is not None:
                    pos = start + off
                elif self.aligned(d):
                    pos = start + up(pos - start, self.alignof(f["t"]))
            if u is not None:
                w = SCALARS[self.under(f["t"])][1]
                if u[0]:
                    unit = pos
                    if unit + w > len(b.data):
                        raise Eof
                    b.need = max(b.need, unit + w)
                    pos += w
                raw = int.from_bytes(b.data[unit : unit + w], order(self.endian))
                sh = u[1] if self.endian == "<" else 8 * w - u[1] - f["b"]
                m = ((1 << f["b"]) - 1) << sh
                for j, x in enumerate(m.to_bytes(w, order(self.endian))):
                    b.mask[unit + j] |= x
                v = (raw & m) >> sh
            else:
                v, pos = self.read(f["t"], b, pos, out)
            out[self.key(d, i)] = v
        if self.aligned(d):
            pos = start + (lay["size"] if lay["size"] is not None else up(pos - start, lay["align"]))
        return out, pos

    def _read_union(self, d, b, start):
        size = self.layout(d)["size"]
        if size is None:
            raise Reject("dynamic union")
        out = {}
        for i, f in enumerate(d["f"]):
            out[self.key(d, i)], _ = self.read(f["t"], b, start, out)
        out["#raw"] = b.data[start : start + size].ljust(size, b"\0")
        return out, start + size

    # -- writing
    def write(self, t, v, out, mask):
        k = t[0]
        if k in ("s", "enum", "flag", "ptr"):
            kind, size, signed, _ = self.scalar(t)
            if kind == "void":
                return
            if kind == "leb":
                raw = leb_encode(v, signed)
            elif kind == "int":
                raw = v.to_bytes(size, order(self.endian), signed=signed)
            elif kind == "float":
                raw = struct.pack(("<" if self.endian == "<" else ">") + FLOAT_FMT[size], v)
            elif kind == "char":
                raw = v
            else:
                raw = v.encode(utf16(self.endian))
            out += raw
            mask += b"\xff" * len(raw)
            return
        if k == "arr":
            et, ln = t[1], t[2]
            if self.is_char(et) or self.is_wchar(et):
                raw = v if self.is_char(et) else v.encode(utf16(self.endian))
                if ln[0] == "z":
                    raw += b"\0" if self.is_char(et) else b"\0\0"
                out += raw
                mask += b"\xff" * len(raw)
                return
            for x in v:
                self.write(et, x, out, mask)
            if ln[0] == "z":
                self.write(et, self.default(et), out, mask)
            return
        d = self.sdef(t)
        start = len(out)
        if d["k"] == "union":
            raw = v["#raw"]
            m = self.umask(d)
            out += bytes(x & y for x, y in zip(raw, m))
            mask += m
            return
        lay = self.layout(d)
        unit = None
        for i, f in enumerate(d["f"]):
            off, u = lay["offsets"][i], lay["units"][i]
            if u is None or u[0]:
                to = start + off if off is not None else None
                if to is None and self.aligned(d):
                    to = start + up(len(out) - start, self.alignof(f["t"]))
                if to is not None and to > len(out):
                    mask += b"\0" * (to - len(out))
                    out += b"\0" * (to - len(out))
            x = v[self.key(d, i)]
            if u is not None:
                w = SCALARS[self.under(f["t"])][1]
                if u[0]:
                    unit = len(out)
                    out += b"\0" * w
                    mask += b"\0" * w
                sh = u[1] if self.endian == "<" else 8 * w - u[1] - f["b"]
                for j, y in enumerate((x << sh).to_bytes(w, order(self.endian))):
                    out[unit + j] |= y
                for j, y in enumerate((((1 << f["b"]) - 1) << sh).to_bytes(w, order(self.endian))):
                    mask[unit + j] |= y
            else:
                self.write(f["t"], x, out, mask)
        if self.aligned(d):
            to = start + (lay["size"] if lay["size"] is not None else up(len(out) - start, lay["align"]))
            mask += b"\0" * (to - len(out))
            out += b"\0" * (to - len(out))

    def umask(self, d):
        """Data-carrying bits of a fixed-size union."""
        n = self.layout(d)["size"]
        b = Buf(b"\0" * n)
        for f in d["f"]:
            self.read(f["t"], b, 0, {})
        return bytes(b.mask)

    def dumps(self, t, v):
        out, mask = bytearray(), bytearray()
        self.write(t, v, out, mask)
        return bytes(out), bytes(mask)

    # -- defaults and truth
    def default(self, t, bits=None):
        k = t[0]
        if bits:
            return 0
        if k in ("s", "enum", "flag", "ptr"):
            kind = self.scalar(t)[0]
            return {"int": 0, "leb": 0, "float": 0.0, "char": b"\0", "wchar": "\0", "void": None}[kind]
        if k == "arr":
            n = max(0, t[2][1]) if t[2][0] == "n" else 0
            if self.is_char(t[1]):
                return b"\0" * n
            if self.is_wchar(t[1]):
                return "\0" * n
            return [self.default(t[1]) for _ in range(n)]
        d = self.sdef(t)
        out = {self.key(d, i): self.default(f["t"], f.get("b")) for i, f in enumerate(d["f"])}
        if d["k"] == "union":
            out["#raw"] = b"\0" * (self.layout(d)["size"] or 0)
        return out

    def zero(self, t, v):
        """Is v the zero element that ends a null-terminated array?"""
        if isinstance(v, dict):
            d = self.sdef(t)
            return all(self.zero(f["t"], v[self.key(d, i)]) for i, f in enumerate(d["f"]))
        if isinstance(v, list):
            return all(self.zero(t[1], x) for x in v) and (t[2][0] == "n" or not v)
        if isinstance(v, (bytes, str)):
            return not any(v) if isinstance(v, bytes) else not v.strip("\0")
        return not v

    def falsy(self, t, v):
        """Python truth of the value, structures: falsy exactly when all their fields are."""
        if isinstance(v, dict):
            d = self.sdef(t)
            return all(self.falsy(f["t"], v[self.key(d, i)]) for i, f in enumerate(d["f"]))
        return not v

    # -- queries used by generators
    def hashable(self, t):
        if t[0] == "arr":
            return self.is_char(t[1]) or self.is_wchar(t[1])
        if t[0] in ("st", "inl"):
            return all(self.hashable(f["t"]) for f in self.sdef(t)["f"])
        return not (t[0] == "s" and canon(t[1]) == "void")

    def walk(self, t, seen=None):
        """All types reachable without going through pointers."""
        yield t
        if t[0] == "arr":
            yield from self.walk(t[1])
        elif t[0] in ("st", "inl"):
            for f in self.sdef(t)["f"]:
                yield from self.walk(f["t"])

    def parse(self, t, data, pos=0):
        b = Buf(data)
        v, end = self.read(t, b, pos)
        return v, end, b


def same(a, b):
    """Equality of model values: type strict, floats by bits, ignores '#raw'."""
    if isinstance(a, dict) and isinstance(b, dict):
        ka = [k for k in a if k != "#raw"]
        kb = [k for k in b if k != "#raw"]
        return set(ka) == set(kb) and all(same(a[k], b[k]) for k in ka)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return struct.pack("<d", a) == struct.pack("<d", b)
    return type(a) is type(b) and a == b
