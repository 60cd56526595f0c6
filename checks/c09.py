"""C09: stream discipline: position-independent and consistent across input kinds and call forms."""

import io
import mmap
import os
import shutil
import tempfile

from dissect.cstruct import cstruct

from lib import bigs, kinds
from lib.common import *
from lib.harness import Discard, Sub
from lib.model import ALIASES, SCALARS, canon
from lib.render import prog_text
from lib.src import Source

RULE = (
    "A case is a definition, an encoding, several positions with different bytes before and after it, an input kind and a call "
    "form; or several values parsed one after the other from one stream, or fields placed at given offsets in any order. "
    "Non-trivial: a position other than 0 and a suffix."
)
ASSUMPTIONS = [
    "positions of aligned structures are multiples of 16",
    "pointers are compared by address; variable-size unions only for position independence",
]


class Plain:
    """The smallest seekable stream: read, seek, tell; starts at an arbitrary base offset."""

    def __init__(self, data, base=0):
        self.d, self.b, self.p = data, base, base

    def read(self, n=-1):
        i = self.p - self.b
        out = self.d[i:] if n is None or n < 0 else self.d[i : i + n]
        self.p += len(out)
        return bytes(out)

    def seek(self, pos, whence=0):
        self.p = pos if whence == 0 else self.p + pos if whence == 1 else self.b + len(self.d) + pos
        assert self.p >= self.b, "seek before the start"
        return self.p

    def tell(self):
        return self.p


STREAMS = ["bytesio", "file", "rawfile", "buffered", "tiny", "mmap", "plain", "big", "big31", "big32", "big63", "big70", "spooled", "random"]
BIG = {"big": 1 << 40, "big31": (1 << 31) - 16, "big32": (1 << 32) - 16, "big63": (1 << 63) - 16, "big70": 1 << 70}


class Streams:
    def __init__(self):
        self.dir = None
        self.n = 0

    def open(self, kind, data):
        """-> (stream, base offset)"""
        if kind == "bytesio":
            return io.BytesIO(data), 0
        if kind == "plain":
            return Plain(data), 0
        if kind in BIG:
            return Plain(data, BIG[kind]), BIG[kind]
        if kind == "buffered":
            return io.BufferedReader(io.BytesIO(data)), 0
        if kind == "tiny":
            return io.BufferedReader(io.BytesIO(data), 2), 0
        if kind == "random":
            return io.BufferedRandom(io.BytesIO(data), 8), 0
        if kind == "spooled":
            f = tempfile.SpooledTemporaryFile()
            f.write(data)
            f.seek(0)
            return f, 0
        if self.dir is None:
            self.dir = tempfile.mkdtemp(prefix="c09")
        self.n += 1
        path = f"{self.dir}/f{self.n % 3}"
        with open(path, "wb") as f:
            f.write(data)
        if kind == "mmap":
            if not data:
                return io.BytesIO(data), 0
            with open(path, "rb") as f:
                return mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ), 0
        return open(path, "rb", buffering=0 if kind == "rawfile" else -1), 0

    def close(self):
        if self.dir:
            shutil.rmtree(self.dir)


def field_sizes(env, d, v):
    """Encoded size of every named member that is not a bit-field."""
    out = {}
    for i, f in enumerate(d["f"]):
        if f["n"] is None or f.get("b"):
            continue
        x = bytearray(), bytearray()
        env.write(f["t"], v[env.key(d, i)], *x)
        out[f["n"]] = len(x[0])
    return out


def compare(env, o, v, ref, what):
    check(same(norm(env, TOP, o), v), what, "parsed", norm(env, TOP, o), "expected", v)
    if ref is not None:
        check(o == ref and ref == o, what, "differs from the value parsed on its own", o, ref)
        check(o._sizes == ref._sizes, what, "sizes", o._sizes, "on its own", ref._sizes)


def align_of(env):
    return 16 if env.align else 1


def gen_pos(src):
    eof = src.bool(1, 6)
    p, env, v, raw, mask = prog_value(src, Opt(mixed=True, eof=eof))
    eof = "arr-eof" in features(env, TOP)
    data = dirty(src, raw, mask)
    a = align_of(env)
    places = []
    for _ in range(4):
        places.append({"kind": src.pick(STREAMS), "pre": src.bytes(a * src.int(0, 40 if a == 1 else 5)),
                       "post": b"" if eof else src.pick([b"", b"\0" * 20, b"\xff" * 20, src.bytes(src.int(1, 30))]),
                       "how": src.int(0, 3), "seek": src.int(0, 2)})  # fmt: skip
    return {"p": p, "v": v, "data": data, "places": places}


def run_pos(c):
    p, v, data = c["p"], c["v"], c["data"]
    env = Env(p)
    raw, mask = env.dumps(TOP, v)
    st = Streams()
    d = env.defs["T"]
    try:
        for compiled, cs, T in modes(p):
            ref = T(data)
            compare(env, ref, v, None, "alone")
            for name, n in field_sizes(env, d, v).items():
                if n:
                    check(ref._sizes.get(name) == n, "size of", name, ref._sizes, "expected", n)
            for pl in c["places"]:
                pos = len(pl["pre"])
                fh, base = st.open(pl["kind"], pl["pre"] + data + pl["post"])
                if pl["seek"] == 0:
                    fh.seek(base + pos)
                elif pl["seek"] == 1:
                    # get there by reading
                    got = b""
                    while len(got) < pos:
                        got += fh.read(pos - len(got))
                else:
                    fh.seek(0, 2)
                    fh.seek(base + pos)
                check(fh.tell() == base + pos, "harness")
                how = pl["how"]
                o = [lambda: T(fh), lambda: T.read(fh), lambda: cs.read("T", fh), lambda: cs.resolve("T").read(fh)][how]()
                what = f"compiled={compiled} {pl['kind']} at {pos} form {how}"
                compare(env, o, v, ref, what)
                check(fh.tell() == base + pos + len(raw), what, "left at", fh.tell() - base, "expected", pos + len(raw))
                check(o.dumps() == raw, what, "dumps", o.dumps(), "expected", raw)
                if hasattr(fh, "close"):
                    fh.close()
    finally:
        st.close()
    labels = feats(env)
    if any(pl["pre"] and (pl["post"] or "arr-eof" in labels) for pl in c["places"]) and raw:
        labels.append("nontrivial")
    return labels


# --- input kinds and call forms ---------------------------------------------------------------------------------------
def inputs(data):
    """(name, factory) of everything a byte string may be given as."""
    arr = bytearray(b"xx" + data + b"yy")
    return [
        ("bytes", lambda: bytes(data)), ("bytearray", lambda: bytearray(data)), ("memoryview", lambda: memoryview(data)),
        ("memoryview slice", lambda: memoryview(arr)[2 : 2 + len(data)]), ("memoryview of bytearray", lambda: memoryview(bytearray(data))),
        ("BytesIO", lambda: io.BytesIO(data)), ("plain stream", lambda: Plain(data)), ("buffered", lambda: io.BufferedReader(io.BytesIO(data))),
    ]  # fmt: skip


def forms(cs, T, name, x, buffer):
    """(name, thunk) of the call forms for one input."""
    out = [("T(x)", lambda: T(x())), ("T.read(x)", lambda: T.read(x()))]
    if buffer:
        out.append(("T.reads(x)", lambda: T.reads(x())))
    if name:
        out.append(("cs.read(name, x)", lambda: cs.read(name, x())))
        out.append(("cs.name(x)", lambda: getattr(cs, name)(x())))
    return out


def all_forms(env, cs, T, name, t, data, v, compiled):
    for iname, x in inputs(data):
        buffer = iname.startswith(("bytes", "memory"))
        for fname, call in forms(cs, T, name, x, buffer):
            o = call()
            check(same(norm(env, t, o), v), f"compiled={compiled}", fname, iname, "gave", norm(env, t, o), "expected", v)
            if t[0] == "s" and t[1] not in ("void",) or t[0] in ("enum", "flag", "ptr"):
                check(isinstance(o, T), fname, iname, "is a", type(o), "expected", T)


def gen_forms(src):
    eof = src.bool(1, 4)
    p, env, v, raw, mask = prog_value(src, Opt(mixed=True, eof=eof))
    eof = "arr-eof" in features(env, TOP)
    return {"p": p, "v": v, "data": dirty(src, raw, mask) + (b"" if eof else src.bytes(src.int(0, 6)))}


def run_forms(c):
    p, v = c["p"], c["v"]
    env = Env(p)
    labels = feats(env)
    for compiled, cs, T in modes(p):
        all_forms(env, cs, T, "T", TOP, c["data"], v, compiled)
        # array of the structure
        if "arr-eof" not in labels and len(c["data"]) < 60:
            raw, mask = env.dumps(TOP, v)
            A = T[2]
            if env.align and len(raw) % 16:
                continue
            all_forms(env, cs, A, None, ("arr", TOP, ("n", 2)), raw * 2 + b"\x07", [v, v], compiled)
        for d in p["defs"]:
            if d["k"] in ("enum", "flag"):
                E = getattr(cs, d["n"])
                x = next(iter(env.enums[d["n"]].values()))
                er, _ = env.dumps((d["k"], d["n"]), x)
                all_forms(env, cs, E, d["n"], (d["k"], d["n"]), er + b"\x01", x, compiled)
                check(all(E(v) == v and E(v).value == v for v in env.enums[d["n"]].values()), "construction of", d["n"])
    return [*labels, "nontrivial"] if len(c["data"]) > 2 else labels


def scalar_items(tier):
    for n in [*SCALARS, *ALIASES]:
        if canon(n) != "void":
            for e in "<>":
                yield {"name": n, "e": e}


def run_scalar(c):
    name = c["name"]
    env = Env({"endian": c["e"], "align": False, "ptr": "uint32", "consts": [], "defs": []})
    src = Source(seed=repr(c))
    cs = cstruct(endian=c["e"])
    T = cs.resolve(name)
    t = ("s", name)
    for _ in range(4):
        v = gen_value(src, env, t)
        raw, _ = env.dumps(t, v)
        all_forms(env, cs, T, name if name in cs.typedefs else None, t, raw, v, None)
        all_forms(env, cs, T, name, t, raw + b"\xfe\x01", v, None)
        for ln in (("n", 3), ("z",)):
            at = ("arr", t, ln)
            if ln[0] == "z" and SCALARS[canon(name)][0] == "float":
                continue
            v = gen_value(src, env, at)
            raw, _ = env.dumps(at, v)
            all_forms(env, cs, T[3] if ln[0] == "n" else T[None], None, at, raw + b"\x09\x0a", v, None)
            for pos in (1, 7, 33):
                for A in (T[3] if ln[0] == "n" else T[None],):
                    fh = io.BytesIO(b"\0" * pos + raw + b"\xaa" * 5)
                    fh.seek(pos)
                    o = A.read(fh)
                    check(same(norm(env, at, o), v) and fh.tell() == pos + len(raw), name, ln, "at", pos, o, fh.tell(), "expected", v)
    return ["nontrivial"]


# --- several values on one stream --------------------------------------------------------------------------------------
def gen_seq(src):
    g = Gen(src, Opt(mixed=True, eof=False))
    p = g.prog()
    env = g.env
    items, pos = [], 0
    names = [d["n"] for d in p["defs"] if d["k"] != "enum" or True]
    for _ in range(src.int(2, 6)):
        d = env.defs[src.pick(names)]
        t = (d["k"] if d["k"] in ("enum", "flag") else "st", d["n"])
        v = gen_value(src, env, t)
        raw, mask = env.dumps(t, v)
        items.append({"t": t, "v": v, "raw": dirty(src, raw, mask), "gap": src.int(0, 3), "form": src.int(0, 2)})
    return {"p": p, "items": items, "kind": src.pick(STREAMS), "order": src.shuffle(range(len(items)))}


def run_seq(c):
    p = c["p"]
    env = Env(p)
    a = align_of(env)
    blob, at = bytearray(), []
    for it in c["items"]:
        blob += b"\xcc" * it["gap"]
        blob += b"\xcd" * (-len(blob) % a)
        at.append(len(blob))
        blob += it["raw"]
    st = Streams()
    try:
        for compiled, cs, T in modes(p):
            fh, base = st.open(c["kind"], bytes(blob) + b"\xce" * 3)

            def one(i):
                it = c["items"][i]
                fh.seek(base + at[i])
                cls = getattr(cs, it["t"][1])
                o = [lambda: cls(fh), lambda: cls.read(fh), lambda: cs.read(it["t"][1], fh)][it["form"]]()
                check(same(norm(env, it["t"], o), it["v"]), f"compiled={compiled} item {i}", o, "expected", it["v"])
                check(fh.tell() == base + at[i] + len(it["raw"]), f"compiled={compiled} item {i} left at", fh.tell() - base,
                      "expected", at[i] + len(it["raw"]))  # fmt: skip

            for i in range(len(c["items"])):
                one(i)
            for i in c["order"]:
                one(i)
            if hasattr(fh, "close"):
                fh.close()
    finally:
        st.close()
    return [*feats(env), "nontrivial"]


# --- unions of variable size -------------------------------------------------------------------------------------------
def gen_dynunion(src):
    g = Gen(src, Opt(huge=True, eof=False, aligned=False))
    p = g.prog()
    u = {"k": "union", "n": "DU", "f": []}
    names = set()
    top = p["defs"].pop()
    for _ in range(src.int(1, 3)):
        u["f"].append({"n": g.fname(names), "t": g.typ(1, False, [], False), "b": None})
    p["defs"] += [u, top]
    top["f"].insert(src.int(0, 1) * len(top["f"]), {"n": "du", "t": ("st", "DU"), "b": None})
    data = src.bytes(src.int(0, 60))
    data = bytes(x & 7 if x & 8 else 0 for x in data)
    return {"p": p, "data": data, "pre": src.bytes(src.int(1, 40)), "post": src.bytes(4), "kind": src.pick(["bytesio", "plain", *BIG])}


def observe(env, T, fh):
    """Members of the union that count to the end of the data are not generated, so the extent is well defined."""
    p0 = fh.tell()
    try:
        o = T.read(fh)
    except (EOFError, OverflowError, UnicodeDecodeError) as e:
        return ("err", type(e).__name__)
    return ("ok", norm(env, TOP, o), fh.tell() - p0, o._sizes, o.du._sizes)


def run_dynunion(c):
    p = c["p"]
    env = Env(p)
    labels = []
    st = Streams()

    def at(data):
        fh, base = st.open(c["kind"], c["pre"] + data)
        fh.seek(base + len(c["pre"]))
        r = observe(env, T, fh)
        if hasattr(fh, "close"):
            fh.close()
        return r

    try:
        for compiled, cs, T in modes(p):
            a = observe(env, T, io.BytesIO(c["data"]))
            b = at(c["data"])
            ok = a[0] == b[0] and (a[0] == "err" or same(a[1], b[1]) and a[2:] == b[2:])
            what = f"compiled={compiled} {c['kind']} at {len(c['pre'])}"
            check(ok or has_nan(a[1]), what, "gave", b, "alone", a)
            if a[0] == "ok":
                labels = ["nontrivial"]
                b = at(c["data"][: a[2]] + c["post"])
                check(same(a[1], b[1]) and a[2:] == b[2:] if b[0] == "ok" and not has_nan(a[1]) else has_nan(a[1]), what,
                      "depends on what follows:", b, "alone", a)  # fmt: skip
    finally:
        st.close()
    return labels


def run_kinds(c):
    p, env, v, raw, mask, data = kinds.case(c)
    for compiled, cs, T in modes(p):
        ref = T(data)
        for pos in (16, 48) if env.align else (1, 7, 30):
            fh = io.BytesIO(b"\xab" * pos + data + b"\xcd\xef")
            fh.seek(pos)
            o = T.read(fh)
            compare(env, o, v, ref, f"compiled={compiled} at {pos}")
            check(fh.tell() == pos + len(raw), "left at", fh.tell(), "expected", pos + len(raw))
        for name, n in field_sizes(env, env.defs["T"], v).items():
            check(not n or ref._sizes.get(name) == n, "size of", name, ref._sizes, "expected", n)
    return ["nontrivial"]


def run_big(c):
    p, env, v, raw, mask, data = bigs.case(c)
    st = Streams()
    post = b"" if c.get("form") == "o" else b"\xcd\xef\0\0"
    src = Source(seed=repr(c))
    try:
        for compiled, cs, T in modes(p):
            ref = T(data)
            compare(env, ref, v, None, "alone")
            for kind in (src.pick(STREAMS), src.pick(list(BIG))):
                pos = src.pick([16, 48, 4096 - 16, 8192]) if env.align else src.pick([1, 7, 30, 4095, 8191, 65535])
                fh, base = st.open(kind, b"\xab" * pos + data + post)
                fh.seek(base + pos)
                o = T.read(fh)
                compare(env, o, v, ref, f"compiled={compiled} {kind} at {pos}")
                check(fh.tell() == base + pos + len(raw), "left at", fh.tell() - base, "expected", pos + len(raw))
                if hasattr(fh, "close"):
                    fh.close()
        for name, n in field_sizes(env, env.defs["T"], v).items():
            check(not n or ref._sizes.get(name) == n, "size of", name, ref._sizes.get(name), "expected", n)
    finally:
        st.close()
    return bigs.nontrivial(c)


# --- fields at given offsets -----------------------------------------------------------------------------------------
OFF_T = ["uint8", "uint16", "int24", "uint32", "char", "wchar", "double", "E", "S", "uint128", "uleb128", "u16x2", "c5", "cz", "Sx2", "U", "ptr"]


def gen_offsets(src):
    fields = []
    for _ in range(src.int(1, 6)):
        fields.append((src.pick(OFF_T), src.pick([None, 0, 1, 2, 3, 4, 5, 8, 9, 12, 16, 20, 31, 40]) if src.bool(3, 4) else None))
    return {"fields": fields, "align": src.bool(1, 3), "e": src.pick("<>"), "pos": [src.pick([1, 2, 7, 16, 33, 48, 4096]) for _ in range(2)], "streams": [src.pick(STREAMS) for _ in range(2)],
            "nest": src.bool(1, 3), "data": src.bytes(110), "how": src.int(0, 2)}  # fmt: skip


def run_offsets(c):
    """Fields at given offsets, in any order, also on top of each other: each is what is found there"""
    al = c["align"]
    data = bytes(x | 1 if i % 11 else 0 for i, x in enumerate(c["data"]))
    data += b"\1\0" * 24
    st = Streams()
    try:
        for compiled in (False, True):
            cs = cstruct(endian=c["e"], pointer="uint16")
            cs.load("enum E : uint16 { A, B }; struct T { };", compiled=compiled, align=al)
            cs.load("struct S { uint8 a; uint16 b; }; union U { uint32 a; char b[3]; };", align=al)
            types = {"u16x2": cs.uint16[2], "c5": cs.char[5], "cz": cs.char[None], "Sx2": cs.S[2], "ptr": cs._make_pointer(cs.uint8)}
            T = cs.T
            fields = [(f"f{i}", types[t] if t in types else cs.resolve(t), off) for i, (t, off) in enumerate(c["fields"])]
            if c["how"]:
                with T.start_update():
                    for n, t, off in fields:
                        T.add_field(n, t, offset=off)
            else:
                for n, t, off in fields:
                    T.add_field(n, t, offset=off)
            outer = base = 0
            if c["nest"]:
                cs.load("struct O { uint64 h; T t; };", compiled=c["how"] == 1, align=al)
                T, base = cs.O, cs.O.fields["t"].offset
                outer = 1
            # where each field is, and what is found there
            exp, at, end, most = {}, {}, 0, 1
            for n, t, off in fields:
                a = t.alignment or 1
                most = max(most, a)
                x = end if off is None else off
                x += -x % a if al else 0
                at[n] = x
                fh = io.BytesIO(data[base + x :])
                try:
                    exp[n] = t.read(fh)
                except (EOFError, UnicodeDecodeError):
                    raise Discard from None
                end = x + fh.tell()
            if al:
                end += -end % most
            if end + base > len(data):
                raise Discard
            for k, p in enumerate([0, *c["pos"]]):
                p = p * 16 if al else p
                fh, b = (io.BytesIO(data), 0) if not k else st.open(c["streams"][k - 1], b"\xab" * p + data)
                fh.seek(b + p)
                o = T.read(fh)
                t = o.t if outer else o
                what = f"compiled={compiled} at {p}"
                for n, _, off in fields:
                    got = getattr(t, n)
                    check(repr(got) == repr(exp[n]) and type(got) is type(exp[n]), what, n, "at", at[n], "gives", repr(got), "expected", repr(exp[n]))
                if not outer:
                    check(fh.tell() == b + p + end, what, "left at", fh.tell() - b, "expected", p + end)
                    check(T.size is None or T.size == end, what, "size", T.size, "expected", end)
                elif not al:
                    check(fh.tell() == b + p + base + end, what, "left at", fh.tell() - b, "expected", p + base + end)
                if hasattr(fh, "close"):
                    fh.close()
    finally:
        st.close()
    offs = [off for _, off in c["fields"] if off is not None]
    return ["nontrivial", *(["backwards"] if any(x > y for x, y in zip(offs, offs[1:])) else [])]


def subs():
    return [
        Sub("big", run_big, items=lambda t: bigs.items(t, 3 if t == "quick" else 1), rule="long arrays, wide and deeply nested structures"),
        Sub("scalar", run_scalar, items=scalar_items, rule="every built-in name x input kinds x call forms"),
        Sub("kinds", run_kinds, items=lambda t: kinds.items(t, 2), rule="all sequences of up to 2 (3) of 24 field kinds"),
        Sub("pos", run_pos, gen_pos, quick=6000, thorough=250000, show=show_case),
        Sub("forms", run_forms, gen_forms, quick=2500, thorough=100000, show=show_case),
        Sub("seq", run_seq, gen_seq, quick=3000, thorough=100000, show=show_case),
        Sub("offsets", run_offsets, gen_offsets, quick=2000, thorough=100000),
        Sub("dynunion", run_dynunion, gen_dynunion, quick=2000, thorough=60000, show=show_case),
    ]
