"""C16: pointers have the configured width, and dereferencing reads the target in place."""

import io
import os
import tempfile

from dissect.cstruct import cstruct
from dissect.cstruct.exceptions import NullPointerDereference

from lib.common import *
from lib.gen import FLOATS, INTS, Values
from lib.harness import Discard, Sub
from lib.model import SCALARS, canon, order
from lib.render import prog_text
from lib.src import int_value

RULE = (
    "Generated programs dense in pointers (scalars, strings, structures, unions, pointers, arrays by typedef, self references), an "
    "image with encoded targets at chosen addresses, and a history of parses, dereferences, arithmetic, assignments, seeks and "
    "dumps on one stream, for every width 8 to 64 and byte order; streams: BytesIO, a file, one with high addresses. Oracle: the "
    "reference model reading the target type at the absolute address. Non-trivial: a successful dereference followed by other steps."
)
ASSUMPTIONS = [
    "in aligned mode structures are dereferenced at addresses aligned to 16 only",
    "the content of the stream does not change between parse and the first dereference",
]
WIDTHS = ["uint8", "uint16", "uint24", "uint32", "uint48", "uint64"]


class PGen(Gen):
    """Programs with many pointers."""

    def base(self, depth, fixed, zero_ok=True):
        if self.src.bool(1, 2):
            return self.pointer()
        return super().base(depth, fixed, zero_ok)

    def pointer(self):
        src = self.src
        named = [(d["k"] if d["k"] in ("enum", "flag") else "st", d["n"]) for d in self.p["defs"]]
        k = src.weighted([(3, "int"), (3, "char"), (1, "void"), (1, "wchar"), (1, "float"), (1, "leb"), (6 if named else 0, "named"), (2, "td")])
        if k == "int":
            t = ("s", self.int_scalar())
        elif k in ("char", "void", "wchar"):
            t = ("s", self.spell(k))
        elif k == "float":
            t = ("s", src.pick(FLOATS))
        elif k == "leb":
            t = ("s", src.pick(["uleb128", "ileb128"]))
        elif k == "named":
            t = src.pick(named)
        else:
            t = src.pick(self.p["tds"])[1]
        for _ in range(src.weighted([(6, 0), (2, 1), (1, 2)])):
            t = ("ptr", t)
        return ("ptr", t)

    def prog(self):
        tds = []
        for i in range(3):
            et = ("s", self.src.pick([*INTS[:8], "char", "wchar", "double"]))
            ln = self.src.pick([("n", 1 + self.src.int(0, 3)), ("n", 2), ("z",)]) if et[1] != "double" else ("n", 2)
            tds.append((f"A{i}", ("arr", et, ln, f"A{i}")))
        self._tds = tds
        p = super().prog()
        d = p["defs"][-1]
        if not d.get("style"):
            for f in d["f"]:
                if f["t"][0] == "ptr" and self.src.bool(1, 3):
                    f["t"] = ("ptr", ("st", "T"))
                elif f["t"][0] == "arr" and f["t"][1][0] == "ptr" and self.src.bool(1, 3):
                    f["t"] = ("arr", ("ptr", ("st", "T")), *f["t"][2:])
        self.refresh()
        return p

    def refresh(self):
        self.p.setdefault("tds", self._tds)
        super().refresh()


class Mem:
    """A readable and seekable stream whose data lives at high addresses."""

    def __init__(self, data, base):
        self.data, self.base, self.pos = bytes(data), base, base

    def tell(self):
        return self.pos

    def seek(self, n, whence=0):
        n = int(n)
        self.pos = n if whence == 0 else self.pos + n if whence == 1 else self.base + len(self.data) + n
        if self.pos < 0:
            self.pos = 0
            raise ValueError("negative")
        return self.pos

    def read(self, n=-1):
        i = self.pos - self.base
        if i < 0 or i > len(self.data):
            return b""
        out = self.data[i:] if n is None or n < 0 else self.data[i : i + n]
        self.pos += len(out)
        return out


def map_pointers(env, t, v, fn, vals):
    """Replace every address below v."""
    k = t[0]
    if k == "ptr":
        return fn(t[1])
    if k == "arr":
        if isinstance(v, list):
            return [map_pointers(env, t[1], x, fn, vals) for x in v]
        return v
    if k not in ("st", "inl"):
        return v
    d = env.sdef(t)
    if d["k"] == "union":
        raw = bytearray(v["#raw"])
        for f in d["f"]:
            if f["t"][0] == "ptr":
                w = env.size(f["t"])
                raw[:w] = fn(f["t"][1]).to_bytes(w, order(env.endian))
        try:
            u, _, _ = env.parse(t, bytes(raw))
        except Reject:
            return v
        return v if has_nan(u) else u
    return {env.key(d, i): map_pointers(env, f["t"], v[env.key(d, i)], fn, vals) if not f.get("b") else v[env.key(d, i)] for i, f in enumerate(d["f"])}


def targets(env):
    out, todo = [], [TOP]
    seen = set()
    while todo:
        for t in env.walk(todo.pop()):
            while t[0] == "ptr":
                if repr(t[1]) not in seen:
                    seen.add(repr(t[1]))
                    out.append(t[1])
                    todo.append(t[1])
                t = t[1]
    return out


def gen(src):
    simple = src.bool()
    g = PGen(src, Opt(maxfields=4 if simple else 6, helpers=2, huge=True, eof=False, floats=True, zterm=True, bits=not simple, consts=False, ptrtypes=WIDTHS))
    p = g.prog()
    p["via"] = src.int(0, 2)
    env = Env(p)
    w = SCALARS[p["ptr"]][1]
    base = 0
    if w >= 4 and src.bool(1, 3):
        base = src.int(0, (1 << 8 * w) - 4096) & ~0xFFF
    total = min(src.int(64, 200 if w == 1 else 500), 250)
    image = bytearray(src.bytes(8) * (total // 8 + 1))[:total]
    for i in range(len(image)):
        if i % 3:
            image[i] &= 3
    tg = targets(env)
    if not tg:
        raise Discard
    blocks = []
    at = src.int(0, 2) * 16 + 16
    vals = Values(src, env, 3)
    for t in [*tg, *([TOP] * src.int(0, 1))]:
        if t == ("s", "char") and src.bool(2, 3):
            raw, v = src.bytes(src.int(0, 9)).replace(b"\0", b"x") + b"\0", None
        elif t == ("s", "void"):
            continue
        else:
            v = vals.value(t)
            raw = env.dumps(t, v)[0]
        if at + len(raw) > len(image):
            image += b"\1\2\0\3" * (-(-(at + len(raw) - len(image)) // 4))
        blocks.append((t, v, at, len(raw)))
        at += len(raw)
        at += -at % 16 if env.align or src.bool() else src.int(0, 3)
    if w == 1 and at > 200:
        raise Discard
    spots = [(t, a) for t, v, a, n in blocks]

    def address(t):
        k = src.weighted([(8, "match"), (1, "null"), (2, "any"), (1, "past"), (1, "wild")])
        m = [a for x, a in spots if x == t]
        if k == "match" and m:
            return (base + src.pick(m)) % (1 << 8 * w)
        if k == "null":
            return 0
        if k == "past":
            return (base + len(image) + src.int(-3, 40)) % (1 << 8 * w)
        if k == "wild":
            return int_value(src, 8 * w, False)
        return (base + (src.int(0, len(image)) & (~15 if env.align else ~0))) % (1 << 8 * w)

    for t, v, a, n in blocks:
        if v is not None:
            raw = env.dumps(t, map_pointers(env, t, v, address, vals))[0]
            if len(raw) == n:
                image[a : a + n] = raw
    start = len(image) + (-len(image) % 16)
    image += b"\7" * (start - len(image))
    if w == 1 and src.bool():
        start = 0
    tops = bytearray()
    for _ in range(src.int(1, 3)):
        tops += env.dumps(TOP, map_pointers(env, TOP, gen_value(src, env, TOP, 3), address, vals))[0]
        if env.align:
            break
    image[start : start + len(tops)] = tops
    image += b"\0" * 4
    ops = [(src.weighted([(3, "read"), (6, "deref"), (4, "arith"), (2, "chain"), (2, "seek"), (2, "dump"), (2, "attr"), (1, "nostream"), (2, "assign"), (1, "direct")]),
            src.int(0, 9), src.int(0, 40), src.int(0, 1 << 20)) for _ in range(src.int(2, 14))]  # fmt: skip
    return {"p": p, "image": bytes(image), "base": base, "start": start, "ops": ops, "stream": src.weighted([(4, 0), (1, 1), (1, 2)]), "endian2": src.bool(1, 8)}


def collect(env, t, o, v, out, path):
    """(pointer of the code under test, target type, address, path) below a value"""
    k = t[0]
    if k == "ptr":
        out.append((o, t[1], v, path))
    elif k == "arr":
        if isinstance(v, list):
            for i, x in enumerate(v):
                collect(env, t[1], o[i], x, out, [*path, i])
    elif k in ("st", "inl"):
        d = env.sdef(t)
        for i, f in enumerate(d["f"]):
            x = v[env.key(d, i)]
            if f.get("b"):
                continue
            if f["n"] is None:
                collect(env, f["t"], o, x, out, path)
            else:
                collect(env, f["t"], getattr(o, f["n"]), x, out, [*path, f["n"]])


def overwrite(fh, i):
    """Change the bytes from offset i on; -> what restore() needs"""
    if isinstance(fh, Mem):
        old = fh.data
        fh.data = old[:i] + bytes(b ^ 0x55 for b in old[i : i + 32]) + old[i + 32 :]
        return old
    if isinstance(fh, io.BytesIO):
        old = fh.getvalue()
        with fh.getbuffer() as b:
            b[i : i + 32] = bytes(x ^ 0x55 for x in old[i : i + 32])
        return old
    return None


def restore(fh, old):
    if isinstance(fh, Mem):
        fh.data = old
    else:
        with fh.getbuffer() as b:
            b[:] = old


ERRORS = (EOFError, ValueError, OverflowError, OSError)


def expected(env, image, base, t, addr):
    """What parsing t at the absolute offset gives: ("ok", value), ("err",), ("skip",) when it is outside the model"""
    if t[0] == "s" and canon(t[1]) == "void":
        return ("ok", None)
    i = addr - base
    if i < 0 or i > len(image):
        return ("skip",) if env.size(t) == 0 else ("err",)
    if t[0] in ("st", "inl", "arr") and env.align and i % 16:
        return ("skip",)
    try:
        if env.is_char(t):
            j = image.find(b"\0", i)
            return ("ok", image[i:j]) if j >= 0 else ("err",)
        v, _, b = env.parse(t, image, i)
    except Eof:
        return ("err",)
    except Reject:
        return ("skip",)
    return ("skip",) if has_nan(v) else ("ok", v)


def check_deref(env, c, ptr, t, addr, fh, what, depth=0):
    """-> True if there was a value"""
    image, base = c["image"], c["base"]
    check(int(ptr) == addr, what, "has value", int(ptr), "expected", addr)
    before = fh.tell()
    if addr == 0:
        expect(ptr.dereference, NullPointerDereference)
        check(fh.tell() == before, what, "null dereference moved the stream")
        return False
    exp = expected(env, image, base, t, addr)
    try:
        got = ptr.dereference()
    except NullPointerDereference:
        raise Fail(f"{what}: null dereference for address {addr:#x}") from None
    except ERRORS as e:
        check(fh.tell() == before, what, "failing dereference moved the stream from", before, "to", fh.tell())
        check(exp[0] != "ok", what, "dereference raises", repr(e), "expected", exp)
        expect(ptr.dereference, *ERRORS)
        check(fh.tell() == before, what, "second failing dereference moved the stream")
        return False
    check(fh.tell() == before, what, "dereference moved the stream from", before, "to", fh.tell())
    if exp[0] == "skip":
        return False
    check(exp[0] == "ok", what, "dereference gives", repr(got), "expected an error")
    if t[0] == "s" and env.is_char(t):
        check(isinstance(got, bytes) and bytes(got) == exp[1], what, "is", repr(got), "expected", exp[1])
    elif exp[1] is None:
        check(got is None or not isinstance(got, (int, bytes, str, list)), what, "void gives", repr(got))
    else:
        v = norm(env, t, got)
        check(same(v, exp[1]), what, "dereferences to", v, "expected", exp[1], "at", hex(addr))
    again = ptr.dereference()
    check(again == got and type(again) is type(got) and repr(again) == repr(got), what, "repeated access gives", repr(again), "first", repr(got))
    check(fh.tell() == before, what, "repeated access moved the stream")
    if exp[1] is not None and (old := overwrite(fh, addr - base)) is not None:
        try:
            again = ptr.dereference()
        except Exception as e:
            raise Fail(f"{what}: repeated access after the target was overwritten raises {e!r}") from None
        finally:
            restore(fh, old)
        check(type(again) is type(got) and repr(again) == repr(got), what, "repeated access after the target was overwritten gives", repr(again), "first", repr(got))
        check(fh.tell() == before, what, "repeated access moved the stream")
    if depth > 0 and exp[1] is not None:
        sub = []
        if not (t[0] == "s"):
            collect(env, t, got, exp[1], sub, [])
        for q, qt, a, path in sub[:4]:
            check_deref(env, c, q, qt, a, fh, f"{what} -> {path}", depth - 1)
    return True


ARITH = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "//": lambda a, b: a // b, "%": lambda a, b: a % b,
    "**": lambda a, b: a**b, "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b, "&": lambda a, b: a & b, "^": lambda a, b: a ^ b, "|": lambda a, b: a | b,
}  # fmt: skip


def open_stream(c, tmp):
    if c["base"]:
        return Mem(c["image"], c["base"])
    if c["stream"] == 1:
        f = open(os.path.join(tmp, "image"), "w+b")
        f.write(c["image"])
        f.seek(0)
        return f
    if c["stream"] == 2:
        return Mem(c["image"], 0)
    return io.BytesIO(c["image"])


def loadp(p, compiled, later=False):
    """``later``: the byte order is set when everything has been loaded"""
    endian = p["endian"] if not later else "<" if p["endian"] != "<" else ">"
    if p["via"] == 0:
        cs = cstruct(endian=endian, pointer=p["ptr"])
    else:
        cs = cstruct(endian=endian)
        cs.pointer = cs.resolve(p["ptr"]) if p["via"] == 1 else getattr(cs, p["ptr"])
    cs.load(prog_text(p), compiled=compiled, align=p["align"])
    cs.endian = p["endian"]
    return cs


def run(c):
    p = c["p"]
    labels = set()
    image, base = c["image"], c["base"]
    with tempfile.TemporaryDirectory() as tmp:
        for compiled in (True, False):
            env = Env(p)
            cs = loadp(p, compiled, c["endian2"])
            T = cs.T
            w = SCALARS[p["ptr"]][1]
            fh = open_stream(c, tmp)
            pos = base + c["start"]
            fh.seek(pos)
            pool = []
            ok = 0
            for step, (k, a, b, x) in enumerate(c["ops"]):
                what = f"step {step} {k} compiled={compiled}"
                if k == "read" or not pool:
                    fh.seek(pos)
                    try:
                        v, end, bf = env.parse(TOP, image, pos - base)
                    except (Eof, Reject):
                        fh.seek(base + c["start"])
                        pos = base + c["start"]
                        continue
                    if has_nan(v):
                        continue
                    o = T(fh) if x % 2 else T.read(fh)
                    check(fh.tell() == base + end, what, "consumed to", fh.tell() - base, "expected", end)
                    got = norm(env, TOP, o)
                    check(same(got, v), what, "parsed", got, "expected", v)
                    ps = []
                    collect(env, TOP, o, v, ps, [])
                    for q, t, addr, path in ps:
                        check(type(q).size == w and len(q) == w, what, "pointer at", path, "has size", type(q).size, "expected", w)
                        check(q.dumps() == addr.to_bytes(w, order(env.endian)), what, "pointer dumps", q.dumps())
                    enc, mask = env.dumps(TOP, v)
                    check(eq_masked(o.dumps(), enc, mask), what, "dumps", o.dumps().hex(), "expected", enc.hex())
                    pool.append((o, v, ps, enc, mask))
                    pos = base + end if not env.align else base + c["start"]
                    continue
                o, v, ps, enc, mask = pool[a % len(pool)]
                if k == "seek":
                    fh.seek(base + x % (len(image) + 8))
                    continue
                if k == "dump":
                    before = fh.tell()
                    check(eq_masked(o.dumps(), enc, mask), what, o.dumps().hex(), "expected", enc.hex())
                    check(fh.tell() == before, what, "moved the stream")
                    continue
                if k == "nostream":
                    qs = []
                    dv = env.default(TOP)
                    n = T()
                    check(same(norm(env, TOP, n), dv), what, "default", n)
                    collect(env, TOP, n, dv, qs, [])
                    for q, t, addr, path in qs:
                        expect(q.dereference, NullPointerDereference)
                        r = q + (1 + x % 9)
                        check(type(r) is type(q) and int(r) == 1 + x % 9, what, "arithmetic on a default pointer", repr(r))
                        expect(r.dereference, NullPointerDereference)
                    for q, *_ in ps:
                        expect(type(q)(5 + x % 99, None).dereference, NullPointerDereference)
                    continue
                if not ps:
                    continue
                q, t, addr, path = ps[b % len(ps)]
                what += f" {path}"
                if k in ("deref", "chain"):
                    ok += check_deref(env, c, q, t, addr, fh, what, 3 if k == "chain" else 0)
                elif k == "attr":
                    exp = expected(env, image, base, t, addr) if addr else ("err",)
                    if exp[0] == "ok" and exp[1] is not None:
                        before = fh.tell()
                        if t[0] != "ptr":
                            check(str(q) == str(q.dereference()), what, "str gives", str(q))
                        if t[0] in ("st", "inl"):
                            d = env.sdef(t)
                            for i, f in enumerate(d["f"]):
                                if f["n"] and not hasattr(int, f["n"]) and not hasattr(type(q), f["n"]):
                                    g = norm(env, f["t"], getattr(q, f["n"]), f.get("b"))
                                    check(same(g, exp[1][env.key(d, i)]), what, "attribute", f["n"], "is", g, "expected", exp[1][env.key(d, i)])
                        check(fh.tell() == before, what, "attribute access moved the stream")
                elif k in ("arith", "assign"):
                    op = list(ARITH)[x % len(ARITH)] if x % 3 else "+-"[x & 1]
                    n = (x >> 4) % 20 if op not in ("**", "<<", "*") else (x >> 4) % 3
                    if op in ("//", "%"):
                        n += 1
                    r = ARITH[op](q, n)
                    e = ARITH[op](addr, n)
                    check(type(r) is type(q), what, op, n, "gives", type(r), "expected", type(q))
                    check(int(r) == e, what, op, n, "is", int(r), "expected", e)
                    check(int(q) == addr, what, "operand changed")
                    if e > 0:
                        ok += check_deref(env, c, r, t, e, fh, f"{what} {op} {n}", 1)
                        back = r - e + addr
                        check(type(back) is type(q) and int(back) == addr, what, "arithmetic back")
                        check_deref(env, c, back, t, addr, fh, f"{what} back")
                    elif e == 0:
                        expect(r.dereference, NullPointerDereference)
                    if k == "assign" and 0 <= e < 1 << 8 * w and len(path) == 1 and isinstance(path[0], str):
                        holder = next((f for f in env.sdef(TOP)["f"] if f["n"] == path[0]), None)
                        if holder is not None:
                            setattr(o, path[0], r)
                            nv = {**v, path[0]: e}
                            nenc, nmask = env.dumps(TOP, nv)
                            check(eq_masked(o.dumps(), nenc, nmask), what, "after assignment dumps", o.dumps().hex(), "expected", nenc.hex())
                            check(int(getattr(o, path[0])) == e, what, "assigned pointer reads back", getattr(o, path[0]))
                            ps2 = []
                            collect(env, TOP, o, nv, ps2, [])
                            i = next(i for i, z in enumerate(pool) if z[0] is o)
                            pool[i] = (o, nv, ps2, nenc, nmask)
                elif k == "direct":
                    # the pointer type on its own
                    P = type(q)
                    raw = addr.to_bytes(w, order(env.endian))
                    check(len(P) == w, what, "len of the pointer type", len(P))
                    at = x % (len(image) - w)
                    fh.seek(base + at)
                    z = P(fh)
                    check(fh.tell() == base + at + w, what, "reading a pointer consumed", fh.tell() - base - at)
                    za = int.from_bytes(image[at : at + w], order(env.endian))
                    check(type(z) is P, what, type(z))
                    ok += check_deref(env, c, z, t, za, fh, f"{what} read at {at}")
                    check(int(P(raw)) == addr and P.dumps(addr) == raw, what, "bytes")
                    ar = P[2]
                    fh.seek(base)
                    for i, y in enumerate(ar(fh)):
                        ya = int.from_bytes(image[i * w : i * w + w], order(env.endian))
                        ok += check_deref(env, c, y, t, ya, fh, f"{what} element {i}")
            if ok > 1:
                labels.add("nontrivial")
            # everything once more, against the beginning
            for o, v, ps, enc, mask in pool:
                check(same(norm(env, TOP, o), v), "at the end the object is", norm(env, TOP, o), "expected", v)
                check(eq_masked(o.dumps(), enc, mask), "at the end it dumps", o.dumps().hex(), "expected", enc.hex())
            if hasattr(fh, "close"):
                fh.close()
    return [*sorted(labels), *feats(env), p["ptr"], "high" if base else "low", f"stream{c['stream']}"]


# --- unions of pointers and integers ----------------------------------------------------------------------------------
def gen_union(src):
    w = src.pick(WIDTHS)
    n = SCALARS[w][1]
    image = bytes(x & 0x7F for x in src.bytes(120)) + b"\0"
    addrs = [src.int(1, 100) for _ in range(6)]
    return {"w": w, "endian": src.pick("<>"), "image": image, "addrs": addrs, "anon": src.bool(), "nest": src.bool(), "raw": src.bool(), "order": src.int(0, 3), "dyn": src.bool(1, 4)}


def run_union(c):
    w = SCALARS[c["w"]][1]
    e = order(c["endian"])
    members = [f"{c['w']} v;", "char *s;", "N *n;", "uint16 *h;"]
    members = members[c["order"] :] + members[: c["order"]]
    if c["dyn"]:
        members.append("char d[];")
    text = "struct N { uint8 x; uint16 y; };\nunion U { " + " ".join(members) + " };\nstruct T { uint8 a; " + ("U u;" if not c["anon"] else "union { " + " ".join(members) + " };") + " uint8 b; };"
    a = c["addrs"]
    image = c["image"]

    def verify(u, addr, what):
        check(int(u.v) == addr and int(u.s) == addr and int(u.n) == addr and int(u.h) == addr, what, "addresses", [hex(int(x)) for x in (u.v, u.s, u.n, u.h)], "expected", hex(addr))
        before = fh.tell()
        end = image.index(b"\0", addr)
        check(u.s.dereference() == image[addr:end], what, "string", u.s.dereference(), "expected", image[addr:end])
        n = u.n.dereference()
        check(n.x == image[addr] and n.y == int.from_bytes(image[addr + 1 : addr + 3], e), what, "structure", n)
        check(u.n.x == n.x and u.n.y == n.y, what, "attributes")
        check(u.h.dereference() == int.from_bytes(image[addr : addr + 2], e), what, "uint16", u.h.dereference())
        check((u.h + 1).dereference() == int.from_bytes(image[addr + 1 : addr + 3], e), what, "h + 1")
        check(fh.tell() == before, what, "stream moved from", before, "to", fh.tell())

    for compiled in (True, False):
        cs = cstruct(endian=c["endian"], pointer=c["w"])
        cs.load(text, compiled=compiled)
        full = image + b"\x11" + a[0].to_bytes(w, e) + (b"\0" if c["dyn"] else b"") + b"\x22"
        if c["dyn"]:
            # the text member ends at the first zero byte
            end = max(w, a[0].to_bytes(w, e).find(b"\0") + 1 or w + 1)
            full = image + b"\x11" + a[0].to_bytes(w, e) + b"\0" * (end - w) + b"\x22"
        fh = io.BytesIO(full)
        fh.seek(len(image))
        o = cs.T(fh)
        check(o.a == 0x11 and o.b == 0x22 and fh.tell() == len(full), "fields around the union", o, fh.tell(), len(full))
        u = o if c["anon"] else o.u
        verify(u, a[0], f"parsed compiled={compiled}")
        if c["dyn"]:
            continue
        u.v = a[1]
        verify(u, a[1], f"after assigning v compiled={compiled}")
        u.s = u.s + 3
        verify(u, a[1] + 3, f"after assigning s compiled={compiled}")
        u.h = u.h - 2
        verify(u, a[1] + 1, f"after assigning h compiled={compiled}")
        if int(u.n) > 0:
            u.n = u.n + (a[2] - int(u.n)) if c["anon"] else u.n
            if c["anon"]:
                verify(u, a[2], f"after assigning n compiled={compiled}")
        cur = int(u.v)
        check(o.dumps() == b"\x11" + cur.to_bytes(w, e) + b"\x22", "dumps", o.dumps().hex())
        n = cs.U()
        expect(n.s.dereference, NullPointerDereference)
        expect(n.n.dereference, NullPointerDereference)
        n.v = 5
        check(int(n.s) == 5, "default union after assignment", n)
    return ["nontrivial"]


# --- targets whose length depends on the structure that holds the pointer ----------------------------------------------
ELEMS = ["uint8", "uint16", "uint32", "int24", "char", "wchar", "uleb128", "P"]
EXPRS = [("n", lambda n, k: n), ("n + k", lambda n, k: n + k), ("n * 2 - k", lambda n, k: n * 2 - k), ("n & 3", lambda n, k: n & 3), ("K", lambda n, k: 2), ("n + K", lambda n, k: n + 2)]
HOLDERS = ["p", "array", "pp", "nested", "anon", "dynarray", "after"]


def gen_context(src):
    return {
        "w": src.pick(WIDTHS), "endian": src.pick("<>"), "elem": src.pick(ELEMS), "expr": src.int(0, len(EXPRS) - 1), "dims": src.bool(1, 4),
        "n": src.int(0, 4), "k": src.int(0, 3), "holder": src.pick(HOLDERS), "align": src.bool(1, 3), "image": bytes(x & 0x5F for x in src.bytes(220)), "addrs": [16 * src.int(1, 8) for _ in range(3)],
    }  # fmt: skip


def run_context(c):
    etext, efn = EXPRS[c["expr"]]
    w = SCALARS[c["w"]][1]
    e = order(c["endian"])
    count = max(0, efn(c["n"], c["k"]))
    el = c["elem"]
    dims = f"[{etext}]" + ("[2]" if c["dims"] else "")
    text = f"#define K 2\nstruct P {{ uint8 x; uint16 y; }};\ntypedef {el} buf_t{dims};\n"
    h = c["holder"]
    decl = {"p": "buf_t *p;", "array": "buf_t *p[2];", "pp": "buf_t **p;", "nested": "struct { uint8 n; uint8 k; buf_t *p; } s;", "anon": "struct { uint8 n2; buf_t *p; };",
            "dynarray": "buf_t *p[k];", "after": "buf_t *p; uint8 z;"}[h]  # fmt: skip
    inner = h in ("nested", "anon")
    if h == "anon":
        decl = decl.replace("n2; ", "n; uint8 k; ")
        text += f"struct T {{ {decl} }};"
    elif h == "nested":
        text += f"struct T {{ uint8 n; uint8 k; {decl} }};"
    else:
        text += f"struct T {{ uint8 n; uint8 k; {decl} }};"
    defs = [{"k": "struct", "n": "P", "f": [{"n": "x", "t": ("s", "uint8"), "b": None}, {"n": "y", "t": ("s", "uint16"), "b": None}]}]
    env = Env({"endian": c["endian"], "align": c["align"], "ptr": c["w"], "consts": [("K", 2)], "defs": defs})
    et = ("st", "P") if el == "P" else ("s", el)
    if c["dims"]:
        et = ("arr", et, ("n", 2))
    tt = ("arr", et, ("n", count))
    image = bytearray(c["image"])
    al = SCALARS[c["w"]][3] if c["align"] else 1
    addrs = list(c["addrs"])
    if h == "pp":
        image[addrs[0] : addrs[0] + w] = addrs[1].to_bytes(w, e)

    def pad(b):
        return b + b"\0" * (-len(b) % al)

    head = bytes([c["n"], c["k"]])
    if h == "nested":
        # the structure that holds the pointer counts
        raw = pad(bytes([7, 9])) + pad(head) + addrs[0].to_bytes(w, e)
    elif h == "array":
        raw = pad(head) + addrs[0].to_bytes(w, e) + addrs[1].to_bytes(w, e)
    elif h == "dynarray":
        raw = pad(head) + b"".join(addrs[i].to_bytes(w, e) for i in range(c["k"]))
    else:
        raw = pad(head) + addrs[0].to_bytes(w, e) + (b"\x2a" if h == "after" else b"")
    raw += b"\0" * 8
    try:
        exps = [env.parse(tt, bytes(image), a)[0] for a in addrs]
    except (Eof, Reject):
        raise Discard from None
    for compiled in (True, False):
        cs = cstruct(endian=c["endian"], pointer=c["w"])
        cs.load(text, compiled=compiled, align=c["align"])
        fh = io.BytesIO(bytes(image) + b"\0" * (-len(image) % 16) + raw)
        at = len(image) + -len(image) % 16
        fh.seek(at)
        o = cs.T(fh)
        pos = fh.tell()
        holder = o.s if h == "nested" else o
        check((holder.n, holder.k) == (c["n"], c["k"]), "parsed", o)
        ptrs = {"array": lambda: list(zip(o.p, exps)), "dynarray": lambda: list(zip(o.p, exps)), "pp": lambda: [(o.p.dereference(), exps[1])]}.get(h, lambda: [(holder.p, exps[0])])()
        for q, exp in ptrs:
            for what in ("", " again"):
                try:
                    got = q.dereference()
                except ERRORS as x:
                    raise Fail(f"{text} compiled={compiled}: dereference{what} raises {x!r}, expected {exp}") from None
                check(same(norm(env, tt, got), exp), text, "compiled", compiled, "dereferences" + what, "to", got, "expected", exp)
            n = int(q)
            for r in (q + 16 - 16, q - 3 + 3, (q * 2) // 2, q // 1, q % (n + 1), q**1, (q << 2) >> 2, (q >> 0) << 0, q & n, q ^ 0, (q ^ 5) ^ 5, q | 0, (q | 7) & n | n, q & (n | 1), (q + 1) * 1 - 1):
                check(type(r) is type(q) and int(r) == n, text, "compiled", compiled, "after arithmetic", repr(r), "of", n)
                for _ in range(2):
                    try:
                        got = r.dereference()
                    except ERRORS as x:
                        raise Fail(f"{text} compiled={compiled}: after arithmetic dereference raises {x!r}, expected {exp}") from None
                    check(same(norm(env, tt, got), exp), text, "compiled", compiled, "after arithmetic", got, "expected", exp)
        check(fh.tell() == pos, "moved the stream")
    return ["nontrivial", h] if count else [h]


def subs():
    return [
        Sub("hist", run, gen, quick=5000, thorough=400000, show=show_case),
        Sub("context", run_context, gen_context, quick=1500, thorough=60000),
        Sub("union", run_union, gen_union, quick=800, thorough=40000),
    ]
