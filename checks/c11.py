"""C11: union members are coherent views of one byte buffer."""

import io
import itertools

from lib.common import *
from lib.gen import Values
from lib.harness import Discard, Sub
from lib.model import SCALARS, order
from lib.src import Source

RULE = (
    "Generated fixed-size unions (scalars, floats, strings, arrays, enums, pointers, nested and anonymous structures and unions, "
    "bit-fields in nested structures), alone, as a field, as an array element or folded into a structure, with histories of "
    "assignments to members, to nested fields (directly or through references taken before other assignments) and of whole "
    "structures. Non-trivial: a history with an assignment that changes a byte some other member shows as well."
)
ASSUMPTIONS = [
    "oracle: a byte buffer; an assignment overwrites the data bits of the assigned field; members are parsed from the buffer by "
    "the reference model",
    "padding bits of the assigned member (or of structures around the assigned field) may become zero or stay, in bits that "
    "other members show",
    "assignments after which a member would be a NaN or an unpaired surrogate are skipped",
    "no bit-fields directly in unions, no in-place mutation of lists that are union members",
]


def find(env, d, name):
    """-> (types of anonymous members passed, with offsets), field index, definition, offset of that definition"""
    for i, f in enumerate(d["f"]):
        if f["n"] == name:
            return [], i, d, 0
    for i, f in enumerate(d["f"]):
        if f["n"] is None:
            base = env.layout(d)["offsets"][i]
            r = find(env, env.sdef(f["t"]), name)
            if r:
                return [(f["t"], base), *((t, o + base) for t, o in r[0])], r[1], r[2], r[3] + base
    return None


def locate(env, d, path):
    """-> leaf field, offset, bit position or None, [(container type, offset)]"""
    off, cont, f, bit = 0, [], None, None
    for name in path:
        anon, i, dd, base = find(env, d, name)
        cont += [(t, off + o) for t, o in anon]
        f = dd["f"][i]
        lay = env.layout(dd)
        off += base + lay["offsets"][i]
        bit = lay["units"][i][1] if f.get("b") else None
        if f["t"][0] in ("st", "inl"):
            cont.append((f["t"], off))
            d = env.sdef(f["t"])
    return f, off, bit, cont


def encode(env, f, bit, v):
    """bytes and mask of one field"""
    if f.get("b"):
        w = SCALARS[env.under(f["t"])][1]
        sh = bit if env.endian == "<" else 8 * w - bit - f["b"]
        o = order(env.endian)
        return (v << sh).to_bytes(w, o), (((1 << f["b"]) - 1) << sh).to_bytes(w, o)
    return env.dumps(f["t"], v)


def mask_of(env, t):
    """data bits of a fixed-size type"""
    b = Buf(b"\0" * env.size(t))
    env.read(t, b, 0, {})
    return bytes(b.mask)


def paths(env, d, pre=()):
    for i, f in enumerate(d["f"]):
        if f["n"] is None:
            yield from paths(env, env.sdef(f["t"]), pre)
            continue
        yield (*pre, f["n"])
        if f["t"][0] in ("st", "inl"):
            yield from paths(env, env.sdef(f["t"]), (*pre, f["n"]))


def gen_hist(src):
    o = Opt(mixed=True, only_fixed=True, maxfields=4, wchars=src.bool(1, 3), floats=src.bool(1, 2), lebs=False, empty=src.bool(1, 10), maxcount=5)
    g = Gen(src, o)
    p = g.prog()
    p["defs"].pop()
    g.refresh()
    wrap = src.weighted([(4, "none"), (1, "field"), (1, "anon"), (1, "elem"), (1, "nested")])
    d = g.sdef("T", "union", 2, True, folded=wrap == "anon")
    if not d["f"]:
        raise Discard
    pre = src.pick(["uint8", "uint32", "char"])
    if wrap == "anon":
        d["n"] = None
        d.pop("style", None)
        inner = [{"n": None, "t": ("inl", d), "b": None}]
    else:
        p["defs"].append(d)
        inner = [{"n": "u_", "t": {"none": ("st", "T"), "field": ("st", "T"), "elem": ("arr", ("st", "T"), ("n", 2)),
                                   "nested": ("inl", {"k": "struct", "n": None, "f": [{"n": "in_", "t": ("st", "T"), "b": None}]})}[wrap], "b": None}]  # fmt: skip
    p["defs"].append({"k": "struct", "n": "W", "f": [{"n": "pre_", "t": ("s", pre), "b": None}, *inner, {"n": "post_", "t": ("s", "uint8"), "b": None}]})
    env = Env(p)
    d = inner[0]["t"][1] if wrap == "anon" else env.defs["T"]
    allp = list(paths(env, d))
    vals = Values(src, env, 4)
    n = src.int(1, 9)
    init = src.weighted([(4, "bytes"), (2, "default"), (1, "stream"), (1, "kw")])
    c = {"p": p, "wrap": wrap, "init": init, "data": vals.union(d)["#raw"], "dirt": src.int(0, 2), "pre": src.int(0, 255), "ops": []}
    if init == "kw":
        first = [x for x in allp if len(x) == 1]
        path = src.pick(first)
        f, _, _, _ = locate(env, d, path)
        v = vals.value(f["t"], {}, f.get("b"))
        c["kw"] = (path[0], v)
        _, o, bit, _ = locate(env, d, path)
        r, m = encode(env, f, bit, v)
        b = bytearray(env.layout(d)["size"])
        b[o : o + len(r)] = r
        try:
            ok = not has_nan(env.parse(("inl", d), bytes(b))[0])
        except Reject:
            ok = False
        if not ok:
            c["init"] = "default"
    for _ in range(n):
        path = src.pick(allp)
        f, _, _, cont = locate(env, d, path)
        v = vals.value(f["t"], {}, f.get("b"))
        how = src.weighted([(3, "now"), (2, "held"), (1, "bytes")])
        c["ops"].append((src.int(0, 1), path, v, how))
    return c


def pick(w, wrap):
    if wrap == "none":
        return w
    if wrap == "anon":
        return w
    if wrap == "field":
        return w.u_
    if wrap == "elem":
        return w.u_[1]
    return w.u_.in_


def view(env, cs, c, d):
    """-> type to create, offset of the union in its dump"""
    if c["wrap"] == "none":
        return cs.T, 0
    lay = env.layout(env.defs["W"])
    off = lay["offsets"][1]
    if c["wrap"] == "elem":
        off += env.layout(d)["size"]
    return cs.W, off


def leaf_class(T, path):
    for name in path:
        T = T.fields[name].type
    return T


def obs(env, d, u, D, what):
    """every member equals the parse of the bytes"""
    exp, _, _ = env.parse(("inl", d), D)
    got = norm(env, ("inl", d), u)
    check(same(got, exp), what, "members are", got, "but the bytes", D.hex(), "mean", exp)


def run_hist(c):
    p = c["p"]
    labels = set()
    for compiled in (True, False):
        env = Env(p)
        cs = load(p, compiled)
        d = next(f["t"][1] for f in env.defs["W"]["f"] if f["n"] is None) if c["wrap"] == "anon" else env.defs["T"]
        size = env.layout(d)["size"]
        um = env.umask(d)
        W, off = view(env, cs, c, d)
        wsize = len(W)
        if c["wrap"] != "anon":
            check(cs.T.size == size and len(cs.T) == size, "size of the union", cs.T.size, "expected", size)
            fh = io.BytesIO(b"\x11" * 3 + c["data"] + b"\x22" * 9)
            fh.seek(3)
            cs.T(fh)
            check(fh.tell() == 3 + size, "parsing consumed", fh.tell() - 3, "expected", size)
        raw = bytes(c["data"])
        if c["dirt"]:
            raw = bytes((x & m) | ((0xFF if c["dirt"] == 1 else 0x5A) & ~m & 0xFF) for x, m in zip(raw, um))

        def make(raw=raw):
            if c["wrap"] == "none":
                T = W
                if c["init"] == "bytes":
                    return T(raw), raw
                if c["init"] == "stream":
                    fh = io.BytesIO(b"zz" + raw + b"tail")
                    fh.seek(2)
                    return T.read(fh), raw
                if c["init"] == "kw":
                    name, v = c["kw"]
                    f, o, bit, _ = locate(env, d, (name,))
                    r, m = encode(env, f, bit, v)
                    b = bytearray(size)
                    b[o : o + len(r)] = r
                    if any(fl["n"] == name for fl in d["f"]):
                        cls = leaf_class(T, (name,))
                        x = unnorm(env, cls, f["t"], v) if buildable(env, f["t"]) else cls.read(env.dumps(f["t"], v)[0])
                        return T(**{name: x}), bytes(b)
                return T(), b"\0" * size
            if c["init"] in ("default", "kw"):
                return W(), b"\0" * size
            b = bytearray(b"\x01" * wsize)
            b[0] = c["pre"]
            b[off : off + size] = raw
            if c["wrap"] == "elem":
                b[off - size : off] = raw
            return W(bytes(b)), raw

        objs, bufs, outer = [], [], []
        for _ in range(2):
            o, b = make()
            objs.append(o)
            bufs.append(bytes(x & m for x, m in zip(b, um)))
            outer.append(None)
        held = []
        for i, o in enumerate(objs):
            h = {}
            for path in paths(env, d):
                f, _, _, _ = locate(env, d, path)
                if f["t"][0] in ("st", "inl"):
                    x = pick(o, c["wrap"])
                    for name in path:
                        x = getattr(x, name)
                    h[path] = x
            held.append(h)

        def verify(i, what):
            D = objs[i].dumps()
            check(len(D) == wsize, what, "dump has", len(D), "bytes, expected", wsize)
            rest = D[:off] + D[off + size :]
            if outer[i] is None:
                outer[i] = rest
            check(rest == outer[i], what, "changed bytes outside of the union:", rest.hex(), "was", outer[i].hex())
            D = D[off : off + size]
            check(bytes(x & m for x, m in zip(D, um)) == bufs[i], what, "dump is", D.hex(), "expected", bufs[i].hex(), "mask", um.hex())
            u = pick(objs[i], c["wrap"])
            obs(env, d, u, D, what)
            if c["wrap"] not in ("anon",):
                check(u.dumps() == D and bytes(u) == D and len(u) == size, what, "dumps of the union", u.dumps().hex(), "expected", D.hex())
            for path, h in held[i].items():
                f, o, _, _ = locate(env, d, path)
                exp, _, _ = env.parse(f["t"], D, o)
                got = norm(env, f["t"], h)
                check(same(got, exp), what, "a reference to", path, "taken before shows", got, "but the bytes mean", exp)

        for i in range(2):
            verify(i, f"initial ({c['init']})")
        for n, (i, path, v, how) in enumerate(c["ops"]):
            f, o, bit, cont = locate(env, d, path)
            r, m = encode(env, f, bit, v)
            old = bufs[i]
            new = bytearray(old)
            for j, (x, y) in enumerate(zip(r, m)):
                new[o + j] = (new[o + j] & ~y & 0xFF) | (x & y)
            try:
                val, _, _ = env.parse(("inl", d), bytes(new))
            except Reject:
                continue
            if has_nan(val):
                continue
            # bits that may be cleared: padding of the structures on the way
            pad = bytearray(size)
            for t, to in cont:
                for j, y in enumerate(mask_of(env, t)):
                    pad[to + j] |= ~y & 0xFF
            for j, y in enumerate(m):
                if not f.get("b"):
                    pad[o + j] |= ~y & 0xFF
                pad[o + j] &= ~y & 0xFF
            if any(pad):
                try:
                    val, _, _ = env.parse(("inl", d), bytes(x & ~y & 0xFF for x, y in zip(new, pad)))
                except Reject:
                    continue
                if has_nan(val):
                    continue
            cls = leaf_class(cs.T if c["wrap"] != "anon" else W, path)
            if not f.get("b") and (how == "bytes" and f["t"][0] in ("st", "inl") or not buildable(env, f["t"])):
                x = cls.read(env.dumps(f["t"], v)[0])
            else:
                x = unnorm(env, cls, f["t"], v, f.get("b"))
            obj = pick(objs[i], c["wrap"])
            if how == "held" and len(path) > 1:
                # the longest prefix that is a structure
                obj = held[i][path[:-1]]
            else:
                for name in path[:-1]:
                    obj = getattr(obj, name)
            what = f"after step {n} ({how} assignment of {'.'.join(path)} = {v!r}, compiled={compiled})"
            setattr(obj, path[-1], x)
            if any(pad):
                D = objs[i].dumps()[off : off + size]
                for j in range(size):
                    k = pad[j] & um[j]
                    check((D[j] & k) & ~old[j] & 0xFF == 0, what, "sets padding bits of the assigned member in byte", j)
                    new[j] = (new[j] & ~k & 0xFF) | (D[j] & k)
            bufs[i] = bytes(x & y for x, y in zip(new, um))
            if bufs[i] != old and len(d["f"]) > 1:
                labels.add("nontrivial")
            labels.add(how if len(path) > 1 else "direct")
            verify(i, what)
        verify(0, "end")
        verify(1, "end")
    labels.add(c["wrap"])
    return sorted(labels)


# --- enumerated ------------------------------------------------------------------------------------------------------
S1 = {"k": "struct", "n": "S1", "f": [{"n": "p", "t": ("s", "uint8"), "b": None}, {"n": "q", "t": ("s", "uint32"), "b": None}]}
S2 = {"k": "struct", "n": "S2", "f": [{"n": "x", "t": ("s", "uint16"), "b": 3}, {"n": "y", "t": ("s", "uint16"), "b": 7}, {"n": "z", "t": ("st", "S1"), "b": None}]}
U1 = {"k": "union", "n": "U1", "f": [{"n": "h", "t": ("s", "uint16"), "b": None}, {"n": "g", "t": ("arr", ("s", "char"), ("n", 3)), "b": None}]}
E1 = {"k": "enum", "n": "E1", "u": "uint16", "m": [("A", None), ("B", None)]}
MEMBERS = {
    "u8": ("s", "uint8"), "i16": ("s", "int16"), "i24": ("s", "int24"), "u32": ("s", "uint32"), "u64": ("s", "uint64"), "f": ("s", "double"),
    "c": ("s", "char"), "c5": ("arr", ("s", "char"), ("n", 5)), "w2": ("arr", ("s", "wchar"), ("n", 2)), "u16x3": ("arr", ("s", "uint16"), ("n", 3)),
    "u8x0": ("arr", ("s", "uint8"), ("n", 0)), "u32x0": ("arr", ("s", "uint32"), ("n", 0)), "S1x0": ("arr", ("st", "S1"), ("n", 0)), "E": ("enum", "E1"), "p": ("ptr", ("s", "uint8")), "S1": ("st", "S1"), "S2": ("st", "S2"), "U1": ("st", "U1"),
    "Sx2": ("arr", ("st", "S1"), ("n", 2)), "anonS": None, "anonU": None, "u8x2x2": ("arr", ("arr", ("s", "uint8"), ("n", 2)), ("n", 2)),
}  # fmt: skip


def members(kinds):
    fields = []
    for i, k in enumerate(kinds):
        if k == "anonS":
            inner = {"k": "struct", "n": None, "f": [{"n": f"m{i}{j}", "t": ("s", t), "b": None} for j, t in enumerate(("uint8", "uint16", "uint8"))]}
            fields.append({"n": None, "t": ("inl", inner), "b": None})
        elif k == "anonU":
            inner = {"k": "union", "n": None, "f": [{"n": f"m{i}{j}", "t": ("s", t), "b": None} for j, t in enumerate(("uint8", "uint32"))]}
            fields.append({"n": None, "t": ("inl", inner), "b": None})
        else:
            fields.append({"n": f"m{i}", "t": MEMBERS[k], "b": None})
    return fields


def grid_items(tier):
    for n in range(1, 4 if tier == "thorough" else 3):
        for kinds in itertools.product(MEMBERS, repeat=n):
            for endian in "<>":
                for align in (False, True):
                    for wrap in ("none", "field", "anon", "elem"):
                        if n == 3 and wrap in ("field", "elem"):
                            continue
                        yield {"kinds": kinds, "endian": endian, "align": align, "wrap": wrap}


def expand(c):
    d = {"k": "union", "n": "T", "f": members(c["kinds"])}
    p = {"endian": c["endian"], "align": c["align"], "ptr": "uint16", "consts": [], "defs": [E1, S1, S2, U1]}
    if c["wrap"] == "anon":
        d["n"] = None
        inner = {"n": None, "t": ("inl", d), "b": None}
    else:
        p["defs"].append(d)
        inner = {"n": "u_", "t": ("arr", ("st", "T"), ("n", 2)) if c["wrap"] == "elem" else ("st", "T"), "b": None}
    p["defs"].append({"k": "struct", "n": "W", "f": [{"n": "pre_", "t": ("s", "uint8"), "b": None}, inner, {"n": "post_", "t": ("s", "uint8"), "b": None}]})
    env = Env(p)
    src = Source(seed=repr(c))
    vals = Values(src, env)
    ops = []
    allp = list(paths(env, d))
    for path in [*allp, *src.shuffle(allp)[:6]]:
        f, _, _, _ = locate(env, d, path)
        ops.append((src.int(0, 1), path, vals.value(f["t"], {}, f.get("b")), src.pick(["now", "held", "bytes"])))
    return {"p": p, "wrap": c["wrap"], "init": src.pick(["bytes", "default", "stream"]), "data": vals.union(d)["#raw"], "dirt": src.int(0, 2), "pre": 1, "ops": ops}


def run_grid(c):
    return run_hist(expand(c))


# --- members with an offset (add_field) --------------------------------------------------------------------------------
BIG = {"u64": ("s", "uint64"), "u8x12": ("arr", ("s", "uint8"), ("n", 12)), "S2": ("st", "S2"), "u16x5": ("arr", ("s", "uint16"), ("n", 5))}


def gen_offsets(src):
    big = src.pick(list(BIG))
    align = src.bool()
    env = Env({"endian": "<", "align": align, "ptr": "uint16", "consts": [], "defs": [E1, S1, S2, U1]})
    size = env.size(BIG[big])
    small = []
    for _ in range(src.int(1, 4)):
        k = src.pick([k for k in MEMBERS if MEMBERS[k] and env.size(MEMBERS[k]) <= size])
        small.append((k, src.pick([0, 1, size - env.size(MEMBERS[k]), None, src.int(0, size)])))
    small = [(k, o if o is None else min(o, size - env.size(MEMBERS[k]))) for k, o in small]
    at = src.int(0, len(small))
    members = [*small[:at], (big, src.pick([None, 0])), *small[at:]]
    ops = [(src.int(0, len(members) - 1), src.int(0, 1 << 60), src.int(0, 3)) for _ in range(src.int(1, 6))]
    return {"members": members, "ops": ops, "endian": src.pick("<>"), "batch": src.bool(), "noise": src.int(0, 1 << 60), "align": align, "n0": src.int(0, len(members))}


def run_offsets(c):
    """Members may be placed at an offset in the union; they are views of the bytes there."""
    from dissect.cstruct import cstruct
    from lib.render import prog_text

    allm = {**MEMBERS, **BIG}
    u = {"k": "union", "n": "U", "f": [{"n": f"m{i}", "t": allm[k], "b": None} for i, (k, _) in enumerate(c["members"])]}
    align = c["align"]
    env = Env({"endian": c["endian"], "align": align, "ptr": "uint16", "consts": [], "defs": [E1, S1, S2, U1, u]})
    cs = cstruct(endian=c["endian"], pointer="uint16")
    cs.load(prog_text({"consts": [], "defs": [E1, S1, S2, U1]}), align=align)
    src = Source(seed=c["noise"])
    size = env.size(("st", "U"))
    types = []

    def resolve(t):
        if t[0] == "arr":
            return resolve(t[1])[t[2][1]]
        if t[0] == "ptr":
            return cs._make_pointer(resolve(t[1]))
        return cs.resolve(t[1])

    for k, o in c["members"]:
        types.append((allm[k], resolve(allm[k]), o or 0))
    n0 = c["n0"] if all(o is None for _, o in c["members"][: c["n0"]]) else 0
    from dissect.cstruct import Field

    U = cs._make_union("U", [Field(f"m{i}", types[i][1]) for i in range(n0)], align=align)
    rest = [(f"m{i}", types[i][1], c["members"][i][1]) for i in range(n0, len(types))]
    if c["batch"]:
        with U.start_update():
            for name, T, o in rest:
                U.add_field(name, T, offset=o)
    else:
        for name, T, o in rest:
            U.add_field(name, T, offset=o)
    check(len(U) == size and U.size == size, "size", len(U), "expected", size)
    buf = bytearray(src.bytes(size))
    full = bytes(buf)
    vals = Values(src, env)
    # every byte is data of some member, or zero
    um = bytearray(size)
    for t, T, o in types:
        for j, x in enumerate(mask_of(env, t)):
            um[o + j] |= x

    def legal(b):
        try:
            return not any(has_nan(env.parse(t, bytes(b[o : o + env.size(t)]))[0]) for t, T, o in types)
        except Reject:
            return False

    for j in range(size):
        buf[j] &= um[j]
    if not legal(buf):
        buf = bytearray(size)
    fh = io.BytesIO(b"!!" + bytes(buf) + b"more")
    fh.seek(2)
    u = U.read(fh)
    check(fh.tell() == 2 + size, "consumed", fh.tell() - 2, "expected", size)
    labels = []

    def verify(what):
        D = u.dumps()
        check(D == bytes(buf), what, "dump is", D.hex(), "expected", bytes(buf).hex())
        for i, (t, T, o) in enumerate(types):
            exp, _, _ = env.parse(t, bytes(buf[o : o + env.size(t)]))
            got = norm(env, t, getattr(u, f"m{i}"))
            check(same(got, exp), what, f"m{i} at {o} is", got, "but the bytes mean", exp)

    verify("parsed")
    for n, (i, seed, how) in enumerate(c["ops"]):
        t, T, o = types[i]
        v = Values(Source(seed=seed), env).value(t, {})
        r, m = env.dumps(t, v)
        if any(x != 0xFF for x in m):
            continue
        new = bytearray(buf)
        new[o : o + len(r)] = r
        if not legal(new):
            continue
        setattr(u, f"m{i}", T.read(r) if how == 0 or not buildable(env, t) else unnorm(env, T, t, v))
        if new != buf:
            labels = ["nontrivial"]
        buf = new
        verify(f"step {n}: m{i} = {v!r}")
    return [*labels, "aligned" if align else "packed"]


def subs():
    return [
        Sub("grid", run_grid, items=grid_items, rule="every member assigned and members assigned in random order",
            show=lambda c: f"{c}\n{show_case(expand(c))}"),
        Sub("offsets", run_offsets, gen_offsets, quick=4000, thorough=200000),
        Sub("hist", run_hist, gen_hist, quick=6000, thorough=400000, show=show_case),
    ]
