"""C19: hexdump is lossless, colours are cosmetic, pack/unpack/swap are inverses."""

import ast
import contextlib
import io
import math
import re

import dissect.cstruct as top
from dissect.cstruct import dumpstruct, hexdump, utils

from lib import bigs
from lib.common import *
from lib.harness import Discard, Sub
from lib.model import SCALARS, canon
from lib.src import Source, int_value
from lib.sut import build

RULE = (
    "hexdump: byte strings with lengths around multiples of 16, offsets, prefixes and palettes (empty, zero-length entries, longer or "
    "shorter than the data); the dump is read back by an independent parser and the coloured dump without its codes must equal the plain "
    "one. dumpstruct: generated definitions and values, parsed and constructed; the dump must show the bytes of the structure and every "
    "field with the value of the reference model. ints: pack, unpack, the fixed-width helpers and swap against a bitwise two's-complement "
    "encoder for every spelling of the byte order. Non-trivial: more than one line or a palette; at least two fields; a width of at least 8."
)
ASSUMPTIONS = [
    "negative integers: swapping twice is the identity modulo 2**width (the helpers have no sign argument)",
    "which byte gets which colour is not judged, only that nothing but codes is inserted",
    "dumpstruct(class, data) is given exactly the bytes of the structure",
]
CODES = [v for k, v in sorted(vars(utils).items()) if k.startswith("COLOR_") and isinstance(v, str)]
ANSI = re.compile(r"\x1b\[[0-9;]*m")


def printable(b):
    return chr(b) if 0x20 <= b < 0x7F else "."


def parse_dump(text, prefix=""):
    """Independent reader of the dump without colours -> [(offset, bytes)]"""
    out = []
    for line in text.split("\n") if text else []:
        check(line.startswith(prefix), "no prefix in", repr(line))
        m = re.match(r"([0-9a-f]{8,})  ", line[len(prefix) :])
        check(m is not None, "no offset in", repr(line))
        rest = line[len(prefix) + m.end() :]
        # sixteen columns of two digits with one space after each and one more in the middle
        cols = [rest[3 * i + (i > 7) :][:2] for i in range(16)]
        row = bytearray()
        for c in cols:
            if c == "  ":
                break
            check(re.fullmatch("[0-9a-f]{2}", c) is not None, "not a byte:", repr(c), "in", repr(line))
            row.append(int(c, 16))
        check(all(c == "  " for c in cols[len(row) :]), "gap in", repr(line))
        check(re.fullmatch(r"(?:(?:[0-9a-f]{2}| ) ?| )*", rest[:49]) is not None, "other text in", repr(line))
        chars = "".join(map(printable, row))
        check(rest[49:] == "  " + chars, "characters", repr(rest[49:]), "for", row.hex())
        out.append((int(m[1], 16), bytes(row)))
    return out


def check_dump(text, data, offset, prefix=""):
    rows = parse_dump(text, prefix)
    check(b"".join(r for _, r in rows) == data, "dumped", b"".join(r for _, r in rows).hex(), "of", data.hex())
    check(all(len(r) == 16 for _, r in rows[:-1]) and (not rows or rows[-1][1]), "bytes per line", [len(r) for _, r in rows])
    check([o for o, _ in rows] == [offset + 16 * i for i in range(len(rows))], "offsets", [o for o, _ in rows], "from", offset)


def strip(text, codes, prefix):
    """Remove the inserted codes, and nothing else"""
    out = []
    for line in text.split("\n") if text else []:
        check(line.startswith(prefix), "no prefix in", repr(line))
        body = line[len(prefix) :]
        for code in sorted(codes, key=len, reverse=True):
            body = body.replace(code, "")
        out.append(prefix + body)
    return "\n".join(out)


def printed(fn):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        r = fn()
    check(r is None, "returned", r, "when printing")
    return buf.getvalue()


# --- hexdump ---------------------------------------------------------------------------------------------------------
def gen_palette(src, n):
    total, pal = 0, []
    if src.bool(1, 10):
        return []
    if src.bool(1, 12):
        return [(n, src.pick(CODES))]
    while src.bool(7, 8) and len(pal) < 24:
        k = src.weighted([(3, 0), (3, 1), (3, src.int(1, 20)), (3, 16), (1, 15), (1, 17), (1, max(0, n - total)), (1, 32), (1, 8)])
        pal.append((k, src.pick(CODES)))
        total += k
    return pal


def gen_hex(src):
    n = src.weighted([(3, src.int(0, 40)), (3, 16 * src.int(0, 5) + src.int(0, 2) - 1), (1, src.int(0, 300)), (1, 0), (1, 16), (1, 32)])
    data = src.weighted([(5, None), (1, b"\0" * max(n, 0)), (1, bytes(range(256))[: max(n, 0)]), (1, bytes(i * 7 % 256 for i in range(max(n, 0)))), (1, b"\x1b[1;31mA\x1b[1;0m\n\r\t %s{}"[: max(n, 0)])])
    if data is None:
        data = src.bytes(max(n, 0))
    pal = None if src.bool(1, 5) else gen_palette(src, len(data))
    off = src.weighted([(3, 0), (2, src.int(0, 1 << 20)), (1, 0xFFFFFFF0), (1, 0xFFFFFFFF), (1, src.int(0, 1 << 40)), (1, 1), (1, 8), (1, 15)])
    prefix = src.weighted([(4, ""), (1, "  "), (1, "| "), (1, "\x1b[1;31m"), (1, "0"), (1, "%08x {} "), (1, "é"), (1, "00 ")])
    return {"data": data, "palette": pal, "offset": off, "prefix": prefix, "kind": src.int(0, 3)}


class Sub8(bytes):
    pass


def run_hex(c):
    data, pal, off, prefix = c["data"], c["palette"], c["offset"], c["prefix"]
    arg = [bytes, bytearray, memoryview, Sub8][c["kind"]](data)
    plain = hexdump(arg, None, off, prefix, output="string")
    check(isinstance(plain, str), "not a string:", plain)
    check_dump(plain, data, off, prefix)
    check(hexdump(data, offset=off, prefix=prefix, output="string") == plain, "other result with other arguments")
    codes = {utils.COLOR_NORMAL}
    if pal is not None:
        codes |= {x for _, x in pal}
    for p in (pal, None if pal is None else [(0, CODES[0]), *pal], None if pal is None else [*pal, (0, CODES[1]), (0, CODES[2])]):
        keep = None if p is None else list(p)
        both = codes | {CODES[0], CODES[1], CODES[2]} if p is not pal else codes
        text = hexdump(arg, p, off, prefix, output="string")
        check(p == keep, "the palette was changed to", p, "from", keep)
        check(strip(text, both, prefix) == plain, "coloured", repr(text), "plain", repr(plain), "palette", p)
        check(hexdump(arg, p, off, prefix, output="string") == text, "a second dump differs")
        lines = list(hexdump(arg, palette=p, offset=off, prefix=prefix, output="generator"))
        check("\n".join(lines) == text, "generator gives", lines, "string", repr(text))
        out = printed(lambda: hexdump(arg, p, off, prefix))  # noqa: B023
        check(out == text + "\n", "printed", repr(out), "string", repr(text))
        if not (p and any(k for k, _ in p)) or not data:
            check(not any(x in text[len(prefix) :] for _, x in p or () if x != utils.COLOR_NORMAL and x not in prefix and x.encode() not in data), "colours without a palette entry that covers bytes")
    return ["nontrivial"] if pal or len(data) > 16 else []


def hex_items(tier):
    """All lengths x all palettes of a few boundaries"""
    sizes = (0, 1, 15, 16, 17)
    lens = [0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 49] if tier == "quick" else range(70)
    import itertools

    top_ = 3 if tier == "quick" else 4
    for n in lens:
        data = bytes((i * 37 + n) % 256 for i in range(n))
        for k in range(top_ + 1):
            for ks in itertools.product(sizes, repeat=k):
                yield {"data": data, "palette": [(x, CODES[i % len(CODES)]) for i, x in enumerate(ks)], "offset": 16 * n, "prefix": "", "kind": 0}
    for n in [255, 256, 257, 1000, 1023, 1024, 4095, 4096, 4097, 5000, 8192, 65535, 65536, 65537, 70001] + ([200000, 1 << 20] if tier != "quick" else []):
        for r in range(6):
            src = Source(seed=f"{n} {r}", limit=1 << 40)
            data = b"\0" * n if r == 5 else bytes((i * 167 + (i >> 8) * 13 + r) % 256 for i in range(n))
            pal = None
            if r in (2, 3):
                pal, left = [], n
                while left > 0 and len(pal) < 500:
                    x = src.pick([1, 3, 16, 17, 100, 300, 4096])
                    pal.append((x, CODES[len(pal) % len(CODES)]))
                    left -= x
            yield {"data": data, "palette": pal, "offset": src.pick([0, 0, 1 << 20, 0xFFFFF000, 1 << 40]), "prefix": "", "kind": r % 3}


# --- dumpstruct ------------------------------------------------------------------------------------------------------
def gen_dump(src):
    p, env, v, raw, mask = prog_value(src, Opt(mixed=True, maxfields=src.pick([3, 6, 10])))
    names = [d["n"] for d in p["defs"] if d["k"] in ("struct", "union")]
    name = "T" if src.bool(2, 3) else src.pick(names)
    t = ("st", name)
    if name != "T":
        v = gen_value(src, env, t)
        raw, mask = env.dumps(t, v)
    if len(raw) > 4000:
        raise Discard
    return {"p": p, "name": name, "v": v, "how": src.int(0, 3), "offset": src.weighted([(2, 0), (1, src.int(0, 1 << 33))]), "color": src.bool()}


def leaf_texts(env, t, v, bits):
    """Acceptable spellings of a value"""
    if v is None:
        return ["None"]
    if isinstance(v, bool) or isinstance(v, int):
        return [hex(v), str(v)]
    if isinstance(v, float):
        return [repr(v)]
    return [repr(v)]


def scan(env, t, v, bits, text, pos):
    """The value must be spelled in text from pos on -> end"""
    k = t[0]
    if not bits and k in ("st", "inl"):
        return scan_struct(env, env.sdef(t), v, text, pos)
    if not bits and k == "arr" and isinstance(v, list):
        for x in v:
            pos = scan(env, t[1], x, None, text, pos)
        return pos
    if isinstance(v, int):
        for m in NUMBER.finditer(text, pos):
            if m.group() in (hex(v), str(v)):
                return m.end()
        raise Fail(f"value {v!r} is not shown in {text!r} after {pos}")
    m = find("(?<![0-9A-Za-z_.])(?:" + "|".join(map(re.escape, leaf_texts(env, t, v, bits))) + ")(?![0-9A-Za-z_.])", text, pos)
    check(m is not None, "value", repr(v), "is not shown in", repr(text), "after", pos)
    return m.end()


NUMBER = re.compile("(?<![0-9A-Za-z_.])-?(?:0x[0-9a-f]+|[0-9]+)(?![0-9A-Za-z_.])")


def find(pattern, text, pos):
    """The first match; nearly always close by, so don't go through all of a large text first"""
    r = re.compile(pattern)
    m = r.search(text, pos, pos + 512)
    return m if m and m.end() < pos + 512 else r.search(text, pos)


def scan_struct(env, d, v, text, pos):
    for i, f in enumerate(d["f"]):
        x = v[env.key(d, i)]
        if f["n"] is None:
            pos = scan_struct(env, env.sdef(f["t"]), x, text, pos)
            continue
        m = find(rf"(?<![0-9A-Za-z_]){re.escape(f['n'])}=", text, pos)
        check(m is not None, "field", f["n"], "is not shown in", repr(text), "after", pos)
        pos = scan(env, f["t"], x, f.get("b"), text, m.end())
    return pos


def listed(env, d, v, text, cls):
    """The list of the fields under the dump"""
    head, _, rest = text.partition("\n")
    check(head.split()[-1] == f"{cls.__name__}:", "header", repr(head))
    entries = []
    for line in rest.split("\n") if rest else []:
        if line.startswith("- "):
            name, sep, val = line[2:].partition(": ")
            check(sep, "no value in", repr(line))
            entries.append([name, val])
        else:
            check(line.startswith(" ") and entries, "unexpected line", repr(line))
            entries[-1][1] += "\n" + line
    names = [e[0] for e in entries]
    check(len(set(names)) == len(names), "listed twice:", names)
    named = dict(entries)
    own = {f["n"] for f in d["f"] if f["n"]}
    anon = iter([x for n, x in entries if n not in own])
    check(sum(1 for n, _ in entries if n not in own) == sum(1 for f in d["f"] if f["n"] is None), "entries", names, "fields", sorted(own))
    for i, f in enumerate(d["f"]):
        x = v[env.key(d, i)]
        if f["n"] is None:
            scan_struct(env, env.sdef(f["t"]), x, next(anon), 0)
            continue
        check(f["n"] in named, "field", f["n"], "is not listed in", names)
        value(env, f, x, named[f["n"]])


def value(env, f, x, text):
    """The text must denote the value"""
    t = f["t"]
    k = t[0]
    scalar = k == "s" and SCALARS[canon(t[1])][0]
    if scalar in ("int", "leb") and not f.get("b") or f.get("b") and k == "s" and scalar == "int":
        check(int(text, 0) == x, f["n"], "is listed as", text, "expected", x)
    elif scalar == "float":
        y = float(text)
        check(y == x and math.copysign(1, y) == math.copysign(1, x) or x != x and y != y, f["n"], "is listed as", text, "expected", x)
    elif not f.get("b") and k != "enum" and (isinstance(x, (bytes, str)) or (isinstance(x, list) and plain_list(env, t))):
        try:
            y = ast.literal_eval(text)
        except (ValueError, SyntaxError):
            raise Fail(f"{f['n']} is listed as {text!r} expected {x!r}") from None
        check(y == x and type(y) is type(x), f["n"], "is listed as", text, "expected", x)
    else:
        scan(env, t, x, f.get("b"), text, 0)


def plain_list(env, t):
    """Lists of integers, strings and bytes have a literal"""
    while t[0] == "arr":
        t = t[1]
    return t[0] == "s" and SCALARS[canon(t[1])][0] != "float" and SCALARS[canon(t[1])][0] != "void"


def run_dump(c):
    p, v, name = c["p"], c["v"], c["name"]
    env = Env(p)
    t = ("st", name)
    d = env.sdef(t)
    raw, mask = env.dumps(t, v)
    for compiled in (True, False):
        cs = load(p, compiled)
        T = getattr(cs, name)
        what = f"compiled={compiled} how={c['how']}"
        if c["how"] == 0:
            o = T(raw)
        elif c["how"] == 1 and d["k"] == "struct" and buildable(env, t):
            o = build(env, T, t, v)
        elif c["how"] == 2 and d["k"] == "struct":
            o = T()
            v = env.default(t)
            raw, mask = env.dumps(t, v)
        else:
            fh = io.BytesIO(b"\x77" * 16 + raw + b"\x77")
            fh.seek(16)
            o = T(fh) if not any(ln[0] == "eof" for ln in eofs(env, d)) else T(raw)
        data = o.dumps()
        check(eq_masked(data, raw, mask), what, "dumps", data.hex(), "expected", raw.hex())
        texts = {}
        for color in (True, False):
            text = dumpstruct(o, offset=c["offset"], color=color, output="string")
            out = printed(lambda: dumpstruct(o, offset=c["offset"], color=color))  # noqa: B023
            check(out.strip("\n") == text.strip("\n"), what, "printed", repr(out), "string", repr(text))
            texts[color] = ANSI.sub("", text)
            dump, _, fields = texts[color].lstrip("\n").partition("\n\n") if data else ("", "", texts[color].lstrip("\n"))
            check_dump(dump, data, c["offset"])
            listed(env, d, v, fields, T)
        check(texts[True] == texts[False], what, "coloured", repr(texts[True]), "plain", repr(texts[False]))
        # by class and bytes; the default of a variable-size structure need not be what it parses to
        if c["how"] == 2 and T.dynamic:
            continue
        text = ANSI.sub("", dumpstruct(T, data, offset=c["offset"], color=c["color"], output="string"))
        dump, _, fields = text.lstrip("\n").partition("\n\n") if data else ("", "", text.lstrip("\n"))
        check_dump(dump, data, c["offset"])
        listed(env, d, v, fields, T)
        check(o.dumps() == data and same(norm(env, t, o), v), what, "dumping changed the structure to", norm(env, t, o), "from", v)
    return ["nontrivial" if len(d["f"]) > 1 else "small", f"how{c['how']}", d["k"], *sorted(features(env, t))]


def eofs(env, d):
    from lib.gen import lens

    for f in d["f"]:
        yield from lens(f["t"])


def big_items(tier):
    """Long arrays and many fields; a dump of some kilobytes takes a while"""
    for c in bigs.items("quick"):
        if c["shape"] == "long" and c["n"] * {"S": 5, "U": 4, "c5": 5, "int128": 8, "wchar": 2}.get(c["el"], 2) > (5000 if tier == "quick" else 40000):
            continue
        if c["shape"] == "block" and c["n"] > (1000 if tier == "quick" else 5000):
            continue
        yield c
    for el in bigs.ELEMS:
        for n in [*range(1, 40, 6), 49, 50, 51, 63, 64, 65, 66, 80, 99, 101, 127, 128, 129, 200]:
            yield {"shape": "long", "el": el, "n": n, "form": "ne"[n % 2], "endian": "<>"[n // 2 % 2], "align": False}


def run_big(c):
    p, env, v, raw, mask, data = bigs.case(c)
    if len(raw) > 60000:
        raise Discard
    run_dump({"p": p, "name": "T", "v": v, "how": 3 if c["n"] % 2 else 1, "offset": 0, "color": True})
    return bigs.nontrivial(c)


# --- integers --------------------------------------------------------------------------------------------------------
LITTLE = ["little", "<"]
BIG = ["big", ">", "!", "network"]
import sys  # noqa: E402

(LITTLE if sys.byteorder == "little" else BIG).extend(["@", "="])
ENDS = [(e, False) for e in LITTLE] + [(e, True) for e in BIG]
ENDS.sort(key=lambda x: x[0])


def enc(v, n, big):
    """Two's complement, bit by bit"""
    out = []
    for i in range(n):
        b = 0
        for j in range(8):
            b |= ((v >> (8 * i + j)) & 1) << j
        out.append(b)
    return bytes(reversed(out) if big else out)


def gen_ints(src):
    size = src.weighted([(3, 8 * src.int(1, 8)), (2, 8 * src.int(1, 40)), (3, src.int(1, 70)), (2, None)])
    end, big = src.pick(ENDS)
    if size is None:
        v = int_value(src, src.int(1, 130), False)
        if src.bool(1, 3):
            v = -v
    else:
        v = int_value(src, size, src.bool())
    return {"v": v, "size": size, "end": end, "big": big}


def run_ints(c):
    v, size, e, big = c["v"], c["size"], c["end"], c["big"]
    b = utils.pack(v, size, e)
    if size is None:
        # some encoding that holds the value
        check(utils.unpack(b, None, e, sign=v < 0) == v, "unpack(pack(v)) is", utils.unpack(b, None, e, sign=v < 0))
        check(utils.unpack(b, 8 * len(b), e, sign=v < 0) == v, "unpack(pack(v), size)")
        check(b == enc(v, len(b), big), "pack gives", b.hex())
    else:
        n = -(-size // 8)
        check(b == enc(v, n, big), "pack gives", b.hex(), "expected", enc(v, n, big).hex())
        for s in {size, None, 8 * n}:
            check(utils.unpack(b, s, e, sign=v < 0) == v, "unpack gives", utils.unpack(b, s, e, sign=v < 0))
        u, s = utils.unpack(b, size, e), utils.unpack(b, size, endian=e, sign=True)
        check(u == v % (1 << 8 * n) and s == (u if u < 1 << 8 * n - 1 else u - (1 << 8 * n)), "unpack signed", s, "unsigned", u)
        for x in (u, s):
            check(utils.pack(x, size, e) == b and utils.pack(x, size=8 * n, endian=e) == b, "pack(unpack(b)) of", b.hex())
        w = utils.swap(v, size)
        check(size % 8 or enc(w, n, True) == enc(v, n, False), "swap gives", w)
        ww = utils.swap(w, size)
        check(ww == v if v >= 0 else ww == v % (1 << 8 * n), "swapped twice", ww)
        if not big and e == "little":
            check(utils.pack(v, size) == b and utils.unpack(b, size) == u and utils.unpack(b, size, sign=True) == s, "default byte order")
        if size in (8, 16, 32, 64):
            p, q = getattr(utils, f"p{size}"), getattr(utils, f"u{size}")
            check(p(v, e) == b == p(v, endian=e), f"p{size} gives", p(v, e))
            check(q(b, e, v < 0) == v and q(b, e) == u and q(b, endian=e, sign=True) == s, f"u{size} gives", q(b, e), q(b, e, True))
            check(p(v) == enc(v, n, False) and q(p(v), sign=v < 0) == v, f"p{size} and u{size} with the default byte order")
            if size > 8:
                f = getattr(utils, f"swap{size}")
                check(f(v) == w and f(f(v)) == v % (1 << size), f"swap{size} gives", f(v))
            check(getattr(top, f"p{size}") is p and getattr(top, f"u{size}") is q, "exports")
    return ["nontrivial"] if size is None or size >= 8 else []


def ints_items(tier):
    """All values of 8 and 16 bits, all boundaries of every width"""
    for v in range(-0x80, 0x100):
        for e, big in ENDS:
            yield {"v": v, "size": 8, "end": e, "big": big}
    for v in range(-0x8000, 0x10000, 1 if tier == "thorough" else 3):
        for e, big in ENDS if tier == "thorough" else [("<", False), (">", True)]:
            yield {"v": v, "size": 16, "end": e, "big": big}
    for size in range(1, 140 if tier == "thorough" else 73):
        for base in (0, 1 << size - 1, 1 << size, 1 << size // 2, -(1 << size - 1)):
            for d in (-2, -1, 0, 1):
                v = base + d
                if -(1 << size - 1) <= v < 1 << size:
                    for e, big in ENDS:
                        yield {"v": v, "size": size, "end": e, "big": big}
                        if size % 8 == 0:
                            yield {"v": v, "size": None, "end": e, "big": big}


def subs():
    return [
        Sub("hexgrid", run_hex, items=hex_items),
        Sub("hexdump", run_hex, gen_hex, quick=12000, thorough=1000000),
        Sub("dumpstruct", run_dump, gen_dump, quick=4000, thorough=300000, show=show_case),
        Sub("big", run_big, items=big_items, rule="long arrays, wide and deeply nested structures"),
        Sub("widths", run_ints, items=ints_items),
        Sub("ints", run_ints, gen_ints, quick=30000, thorough=3000000),
    ]
