"""C17: field-wise equality, consistent hash and truth, construction equals assignment, assignment is local."""

import io

from dissect.cstruct import cstruct

from lib import bigs
from lib.common import *
from lib.gen import Values, lens
from lib.harness import Discard, Sub
from lib.model import expr_ids, order
from lib.render import prog_text
from lib.src import Source
from lib.sut import assign, has_anon_union

RULE = (
    "pairs: instances made by parsing, positional, keyword and attribute initialisation in compiled and interpreted types, equal or "
    "different in exactly one leaf, many types (also of equal field count) loaded together. shapes: every field count up to 40 and "
    "some up to 300, each single field changed. construct: subsets of values against assignment on a default. local: assignments at "
    "any depth of fixed-size structures against model bytes. Non-trivial: two or more fields and at least one difference."
)
ASSUMPTIONS = [
    "equality of fields is Python equality of their values; no NaN, and no floats in unions",
    "a lone positional bytes-like or readable argument is input to parse, not a value",
]


def eqv(a, b):
    """All fields equal"""
    if isinstance(a, dict):
        return all(eqv(a[k], b[k]) for k in a if k != "#raw")
    if isinstance(a, list):
        return len(a) == len(b) and all(eqv(x, y) for x, y in zip(a, b))
    return a == b


def leaves(env, t, v, path=()):
    """Paths of everything that can be changed on its own"""
    if isinstance(v, dict):
        d = env.sdef(t)
        if d["k"] == "union":
            yield path, t, None
            return
        for i, f in enumerate(d["f"]):
            k = env.key(d, i)
            if f.get("b"):
                yield (*path, k), f["t"], f["b"]
            else:
                yield from leaves(env, f["t"], v[k], (*path, k))
        return
    if isinstance(v, list):
        for i, x in enumerate(v):
            yield from leaves(env, t[1], x, (*path, i))
        if t[2][0] in ("z", "eof"):
            yield path, t, None
        return
    yield path, t, None


def put(v, path, x):
    if not path:
        return x
    if isinstance(v, list):
        out = list(v)
        out[path[0]] = put(v[path[0]], path[1:], x)
        return out
    return {**v, path[0]: put(v[path[0]], path[1:], x)}


def value_at(v, path):
    for p in path:
        v = v[p]
    return v


def change(env, t, bits, v, src):
    """Another value of the same shape, or None"""
    if bits:
        return v ^ (1 << src.int(0, bits - 1))
    if isinstance(v, bytes):
        if not v:
            return None
        i = src.int(0, len(v) - 1)
        x = v[i] ^ (1 << src.int(0, 7))
        return v[:i] + bytes([x or v[i] ^ 0xFF or 1]) + v[i + 1 :]
    if isinstance(v, str):
        if not v or ord(v[0]) > 0xFFFF or ord(v[-1]) > 0xFFFF:
            return None
        i = src.pick([0, len(v) - 1])
        return v[:i] + ("x" if v[i] != "x" else "y") + v[i + 1 :]
    if isinstance(v, float):
        return 1.5 if v != 1.5 else -2.0
    if isinstance(v, dict):
        raw = bytearray(v["#raw"])
        if not raw:
            return None
        raw[src.int(0, len(raw) - 1)] ^= 1 << src.int(0, 7)
        try:
            u, _, _ = env.parse(t, bytes(raw))
        except Reject:
            return None
        return None if eqv(u, v) else u
    if isinstance(v, list):
        if not v:
            return None
        return v[:-1]
    if v is None:
        return None
    if t[0] == "enum" or t[0] == "flag" or t[0] == "ptr" or t[0] == "s":
        kind, size, signed, _ = env.scalar(t)
        if kind == "leb":
            return v + 1
        w = 8 * size
        u = (v ^ (1 << src.int(0, w - 1))) & ((1 << w) - 1)
        return u - (1 << w) if signed and u >> (w - 1) else u
    return None


def make(env, cls, v, raw, route):
    """An instance of the structure (TOP) with the given field values"""
    d = env.sdef(TOP)
    if route == "parse":
        return cls(raw)
    if route == "read":
        return cls.read(io.BytesIO(raw))
    parts = [(f, cls.__fields__[i].type, v[env.key(d, i)]) for i, f in enumerate(d["f"])]
    if not buildable(env, TOP):
        # by parsing the parts
        vals = [part(env, t, f, x) for f, t, x in parts]
    else:
        vals = [unnorm(env, t, f["t"], x, f.get("b")) for f, t, x in parts]
    if route == "pos":
        if len(vals) == 1 and isinstance(vals[0], (bytes, bytearray)):
            return cls(**{d["f"][0]["n"]: vals[0]}) if d["f"][0]["n"] else cls(raw)
        return cls(*vals)
    if route == "kw":
        if any(f["n"] is None for f, _, _ in parts):
            return cls(*vals)
        return cls(**{f["n"]: x for (f, _, _), x in zip(parts, vals)})
    o = cls()
    for (f, t, x), y in zip(parts, vals):
        if f["n"] is None:
            if env.sdef(f["t"])["k"] == "union" or not buildable(env, TOP):
                return cls(raw)
            assign(env, t, env.sdef(f["t"]), x, o)
        else:
            setattr(o, f["n"], y)
    return o


def part(env, cls, f, v):
    if f.get("b"):
        return unnorm(env, cls, f["t"], v, f["b"])
    return part_t(env, cls, f["t"], v)


def part_t(env, cls, t, v):
    if t[0] == "arr" and isinstance(v, list):
        return [part_t(env, cls.type, t[1], x) for x in v]
    if t[0] in ("st", "inl"):
        return cls.read(env.dumps(t, v)[0])
    return unnorm(env, cls, t, v)


ROUTES = ["parse", "read", "kw", "pos", "assign"]


def gen_pairs(src):
    unions = src.bool()
    opt = Opt(mixed=True, unions=unions, floats=not unions, wchars=not unions or src.bool(), maxfields=src.pick([3, 6, 9]), eof=src.bool(1, 4))
    progs = []
    for _ in range(src.weighted([(3, 1), (2, 2), (1, 3)])):
        p, env, v, raw, mask = prog_value(src, opt)
        ls = list(leaves(env, TOP, v))
        diffs = []
        for path, t, b in src.shuffle(ls)[:4]:
            x = change(env, t, b, value_at(v, path), src)
            if x is not None:
                w = put(v, path, x)
                if not env_ok(env, w):
                    continue
                diffs.append(w)
        progs.append({"p": p, "v": v, "diffs": diffs})
    return {"p": progs[0]["p"], "progs": progs, "routes": [src.pick(ROUTES) for _ in range(6)], "same": src.bool()}


def env_ok(env, v):
    """Does the value survive a round trip (its lengths may depend on changed fields)?"""
    try:
        raw, _ = env.dumps(TOP, v)
        w, end, _ = env.parse(TOP, raw)
    except (Eof, Reject, OverflowError):
        return False
    return same(v, w) and end == len(raw)


def hash_of(o):
    try:
        return hash(o)
    except TypeError:
        return None


def check_one(env, o, v, what):
    check(same(norm(env, TOP, o), v), what, "has fields", norm(env, TOP, o), "expected", v)
    check(bool(o) == (not env.falsy(TOP, v)), what, "truth is", bool(o), "for", v)
    h = hash_of(o)
    check((h is not None) == env.hashable(TOP), what, "hashable:", h, "expected", env.hashable(TOP))
    check(o == o and not o != o, what, "differs from itself")  # noqa: PLR0124
    for x in (None, 0, "", b"", v, [], object()):
        check(not o == x and o != x, what, "equals", x)


def check_pair(o1, v1, o2, v2, what):
    e = eqv(v1, v2)
    check((o1 == o2) is e, what, "equality is", o1 == o2, "of", v1, "and", v2)
    check((o2 == o1) is e, what, "reverse equality is", o2 == o1, "of", v1, "and", v2)
    check((o1 != o2) is not e, what, "inequality of", v1, "and", v2)
    if e:
        h1, h2 = hash_of(o1), hash_of(o2)
        check(h1 == h2, what, "equal instances hash to", h1, h2)
        if h1 is not None:
            check(len({o1, o2}) == 1 and {o1: 1}[o2] == 1, what, "equal instances as keys")


def run_pairs(c):
    labels = set()
    loaded = []
    for pr in c["progs"]:
        for compiled in (True, False):
            loaded.append((pr, compiled, load(pr["p"], compiled)))
    objs = []
    for pr, compiled, cs in loaded:
        env = Env(pr["p"])
        T = cs.T
        for j, v in enumerate([pr["v"], pr["v"], *pr["diffs"]]):
            raw, _ = env.dumps(TOP, v)
            for r in {c["routes"][j % 6], c["routes"][(j + 1) % 6]} | ({"parse"} if j == 0 else set()):
                if r in ("kw", "pos", "assign") and has_anon_union(env, env.sdef(TOP)):
                    r = "parse"
                o = make(env, T, v, raw, r)
                check_one(env, o, v, f"{r} compiled={compiled}")
                objs.append((T, env, o, v, r))
        if pr["diffs"]:
            labels.add("nontrivial")
        labels.update(feats(env))
    for i, (T1, env1, o1, v1, r1) in enumerate(objs):
        for T2, env2, o2, v2, r2 in objs[i:]:
            if T1 is T2:
                check_pair(o1, v1, o2, v2, f"{r1} {r2}")
            else:
                check(o1 != o2 and not o1 == o2, "instances of different types are equal", v1)
    return sorted(labels)


def show_pairs(c):
    return "\n".join(show_case(x) for x in c["progs"]) + f"\n{c['routes']}"


# --- shapes: field counts --------------------------------------------------------------------------------------------
POOL = ["uint8", "int32", "char", "uint16", "double", "wchar", "E", "uint8 *", "uleb128", "S", "char[3]", "uint64"]
SPECIAL = ["self", "__self", "____self", "cls", "other", "any", "hash", "object", "name", "values", "r", "s", "o", "obj", "stream", "context", "result", "args", "kwargs", "key", "value", "None_", "type_", "field", "buf", "data", "int", "len", "bool", "list", "tuple", "super", "property"]


def shape_items(tier):
    for n in [*range(41), 60, 64, 127, 128, 129, 254, 255, 256, 257, 300]:
        for kind in range(8 if tier == "thorough" else 4):
            for compiled in (False, True):
                yield {"n": n, "kind": kind, "compiled": compiled}


def shape_def(n, kind, seed):
    """Field list of (type, name, make(value index))"""
    src = Source(seed=f"{n} {kind} {seed}")
    names = [f"f{i}" for i in range(n)]
    special = src.shuffle(SPECIAL)
    for i in range(min(n, len(special))):
        if kind % 2:
            names[(i * 7) % n] = special[i] if special[i] not in names else names[(i * 7) % n]
    if len(set(names)) != n:
        names = [f"f{i}" for i in range(n)]
    names = src.shuffle(names)
    types = [src.pick(POOL) if kind >= 2 else "uint8" for _ in range(n)]
    return list(zip(types, names))


def shape_value(cs, t, i, which):
    if t in ("uint8", "uint16", "uint64", "uint8 *", "uleb128"):
        return (i * 3 + which * 7) % 200 + which
    if t == "int32":
        return -(i + which * 5) - which
    if t == "char":
        return bytes([(i + which * 9) % 256])
    if t == "wchar":
        return chr(65 + (i + which) % 50)
    if t == "double":
        return i + which / 2
    if t == "E":
        return cs.E((i + which) % 5)
    if t == "S":
        return cs.S(x=(i + which) % 256, y=1)
    return bytes([(i + which) % 256, 1, 2])


ZERO = {"char": b"\0", "wchar": "\0", "double": 0.0, "char[3]": b"\0\0\0"}


def run_shape(c):
    n = c["n"]
    cs = cstruct()
    cs.load("enum E : uint8 { A, B, C }; struct S { uint8 x; uint16 y; };")
    defs = {}
    for j in range(3):
        fl = shape_def(n, c["kind"], j)
        text = " ".join(f"{t.split('[')[0]} {nm}{'[3]' if '[' in t else ''};" for t, nm in fl)
        cs.load(f"struct T{j} {{ {text} }};", compiled=c["compiled"])
        defs[j] = fl
    for j, fl in defs.items():
        T = cs.resolve(f"T{j}")
        names = [nm for _, nm in fl]

        def zero(t):
            return cs.E(0) if t == "E" else cs.S() if t == "S" else ZERO.get(t, 0)

        v = [shape_value(cs, t, i, 1) for i, (t, _) in enumerate(fl)]
        z = [zero(t) for t, _ in fl]
        d = T()
        check([getattr(d, nm) for nm in names] == z, "default fields", d)
        check(bool(d) == any(bool(x) for x in z), "truth of the default", d)
        kw = T(**dict(zip(names, v)))
        pos = T(*v) if not (n == 1 and isinstance(v[0], bytes)) else T(**dict(zip(names, v)))
        asg = T()
        for nm, x in zip(names, v):
            setattr(asg, nm, x)
        parsed = T(kw.dumps())
        four = {"kw": kw, "pos": pos, "assigned": asg, "parsed": parsed}
        for a, x in four.items():
            check([getattr(x, nm) for nm in names] == v, a, "has", [getattr(x, nm) for nm in names], "expected", v)
            check(x.dumps() == kw.dumps(), a, "dumps", x.dumps().hex(), "expected", kw.dumps().hex())
            check(bool(x) == any(bool(y) for y in v), a, "truth")
            for b, y in four.items():
                check(x == y and not x != y and hash(x) == hash(y), a, b, "are not equal or hash differently")
        # every single field decides equality
        step = 1 if n <= 64 else n // 40
        for i in sorted({*range(0, n, step), *range(max(0, n - 3), n)}):
            t, nm = fl[i]
            other = shape_value(cs, t, i, 2)
            check(other != v[i], "same value")
            w = T(*v[:i], other, *v[i + 1 :]) if n > 1 else T(**{nm: other})
            check(w != kw and kw != w and not w == kw, "instances that differ in", nm, "are equal")
            setattr(w, nm, v[i])
            check(w == kw and hash(w) == hash(kw), "instances are not equal after assigning", nm)
            # every single field decides truth; the zero of these types is falsy unless it is a character
            one = T(**{nm: other})
            exp = [other if k == i else z[k] for k in range(n)]
            check([getattr(one, x) for x in names] == exp, "keyword", nm, "gives", one)
            check(bool(one) == any(bool(x) for x in exp), "truth with", nm)
            if i + 1 < n or not isinstance(v[0], bytes) or i > 0:
                part_ = T(*v[: i + 1]) if not (i == 0 and isinstance(v[0], bytes)) else T(v[0], None) if n > 1 else None
                if part_ is not None:
                    check([getattr(part_, x) for x in names] == [*v[: i + 1], *z[i + 1 :]], "positional values give", part_)
            mix = T(*v[:i], **{nm: v[i]}) if i else T(**{nm: v[i]})
            check([getattr(mix, x) for x in names] == [*v[: i + 1], *z[i + 1 :]], "positional and keyword values give", mix)
        for k, T2 in ((k, cs.resolve(f"T{k}")) for k in defs):
            if k != j:
                y = T2(**{nm: x for nm, x in zip(names, v) if nm in T2.fields})
                check(y != kw and kw != y, "instances of T", j, k, "are equal")
                check(T2() != T() and not T2() == T(), "defaults of two types are equal")
        expect(lambda T=T: T(no_such_field=1), TypeError)
        expect(lambda T=T: T(*[1] * (n + 1)) if n else T(1, 2), TypeError)
    return ["nontrivial"] if n > 1 else []


# --- construction ----------------------------------------------------------------------------------------------------
def gen_construct(src):
    unions = src.bool(1, 3)
    p, env, v, raw, mask = prog_value(src, Opt(mixed=True, unions=unions, floats=not unions, wchars=not unions, eof=False, only_fixed=src.bool()))
    n = len(env.sdef(TOP)["f"])
    return {"p": p, "v": v, "npos": src.int(0, n), "kw": [src.bool() for _ in range(n)], "none": [src.bool(1, 6) for _ in range(n)], "nested": src.bool()}


def run_construct(c):
    p = c["p"]
    env = Env(p)
    d = env.sdef(TOP)
    v = c["v"]
    given = 0
    for compiled, cs, T in modes(p):
        args, kwargs, exp = [], {}, {}
        dflt = env.default(TOP)
        obj = T()
        okay = True
        for i, f in enumerate(d["f"]):
            k = env.key(d, i)
            t = T.__fields__[i].type
            use = None
            if i < c["npos"] and not c["none"][i]:
                use = "pos"
            elif i >= c["npos"] and c["kw"][i] and f["n"] is not None:
                use = "kw"
            x = part(env, t, f, v[k]) if use else None
            if i < c["npos"]:
                args.append(x)
            elif use:
                kwargs[f["n"]] = x
            exp[k] = v[k] if use else dflt[k]
            if use:
                given += 1
                if f["n"] is not None:
                    setattr(obj, f["n"], part(env, t, f, v[k]))
                else:
                    okay = False  # compared with the model only
        if len(args) == 1 and not kwargs and (isinstance(args[0], bytes) or hasattr(args[0], "read")):
            raise Discard
        o = T(*args, **kwargs)
        got = norm(env, TOP, o)
        check(same(got, exp), f"compiled={compiled} T(*{args}, **{kwargs}) has", got, "expected", exp)
        try:
            enc, mask = env.dumps(TOP, exp)
        except (Reject, OverflowError):
            enc = None
        fits = env_ok(env, exp)
        if enc is not None and fits:
            check(eq_masked(o.dumps(), enc, mask), "constructed instance dumps", o.dumps().hex(), "expected", enc.hex())
        if okay:
            check(same(norm(env, TOP, obj), exp), "assignment gives", norm(env, TOP, obj), "expected", exp)
            check(obj == o and o == obj, "constructed and assigned instances differ", o, obj)
            check(hash_of(o) == hash_of(obj), "they hash differently")
            if enc is not None and fits:
                check(obj.dumps() == o.dumps(), "they dump differently", o.dumps().hex(), obj.dumps().hex())
        check(bool(o) == (not env.falsy(TOP, exp)), "truth of", o)
    return ["nontrivial", *feats(env)] if given > 1 else feats(env)


# --- local assignment ------------------------------------------------------------------------------------------------
def gen_local(src):
    unions = src.bool()
    p, env, v, raw, mask = prog_value(src, Opt(unions=unions, floats=not unions, wchars=not unions, only_fixed=True, lebs=False, zterm=False, expr=False, eof=False))
    ops = []
    for _ in range(src.int(1, 8)):
        ls = list(leaves(env, TOP, v))
        if not ls:
            break
        path, t, b = src.pick(ls)
        # assign a whole part sometimes
        cut = src.int(0, 2)
        ops.append((path, src.int(0, 1 << 30), cut))
    return {"p": p, "v": v, "raw": dirty(src, raw, mask), "ops": ops, "how": src.pick(["parse", "default", "kw"])}


def type_at(env, path):
    """-> type, bits at a path"""
    t, b = TOP, None
    for k in path:
        if isinstance(k, int):
            t, b = t[1], None
        else:
            d = env.sdef(t)
            i = next(i for i in range(len(d["f"])) if env.key(d, i) == k)
            t, b = d["f"][i]["t"], d["f"][i].get("b")
    return t, b


def class_at(env, cls, path):
    t = TOP
    for k in path:
        if isinstance(k, int):
            cls, t = cls.type, t[1]
        else:
            d = env.sdef(t)
            i = next(i for i in range(len(d["f"])) if env.key(d, i) == k)
            cls, t = cls.__fields__[i].type, d["f"][i]["t"]
    return cls


def mark(env, t, v, path, size):
    """Bits of the encoding that belong to the part at path: found by an independent walk over the layout"""
    out = bytearray(size)
    off = 0
    for n, k in enumerate(path):
        if isinstance(k, int):
            t = t[1]
            off += k * env.size(t)
            continue
        d = env.sdef(t)
        i = next(i for i in range(len(d["f"])) if env.key(d, i) == k)
        f = d["f"][i]
        lay = env.layout(d)
        off += lay["offsets"][i]
        t = f["t"]
        if f.get("b"):
            w = env.scalar(t)[1]
            pos = lay["units"][i][1]
            sh = pos if env.endian == "<" else 8 * w - pos - f["b"]
            m = (((1 << f["b"]) - 1) << sh).to_bytes(w, order(env.endian))
            for j, x in enumerate(m):
                out[off + j] |= x
            return bytes(out)
    n = env.size(t)
    out[off : off + n] = b"\xff" * n
    return bytes(out)


def run_local(c):
    p = c["p"]
    env = Env(p)
    labels = set()
    size = env.size(TOP)
    for compiled, cs, T in modes(p):
        v = c["v"]
        if c["how"] == "parse":
            o = T(c["raw"])
        elif c["how"] == "default":
            o = T()
            v = env.default(TOP)
        else:
            o = make(env, T, v, env.dumps(TOP, v)[0], "kw") if not has_anon_union(env, env.sdef(TOP)) else T(c["raw"])
        for path, seed, cut in c["ops"]:
            src = Source(seed=seed)
            path = path[: len(path) - cut] if cut and len(path) > cut and isinstance(path[len(path) - cut - 1], str) and not path[len(path) - cut - 1].startswith("#") else path
            t, b = type_at(env, path)
            x = Values(src, env).value(t, {}, b) if t != ("s", "void") else None
            if x is None:
                continue
            before = o.dumps()
            obj = o
            for k in path[:-1]:
                if isinstance(k, int):
                    obj = obj[k]
                elif not k.startswith("#"):
                    obj = getattr(obj, k)
            cls = class_at(env, T, path)
            val = part(env, cls, {"t": t, "b": b}, x)
            if isinstance(path[-1], int):
                if env.is_char(type_at(env, path[:-1])[0]):
                    continue
                obj[path[-1]] = val
                labels.add("item")
            elif path[-1].startswith("#"):
                # an anonymous union as a whole: assign its longest member
                u = env.sdef(t)
                m = max((f for f in u["f"] if f["n"]), key=lambda f: env.size(f["t"]), default=None)
                if m is None or env.size(m["t"]) != env.size(t) or env.umask({"k": "union", "n": None, "f": [m]}) != b"\xff" * env.size(t):
                    continue
                cu = next(z for z in cls.__fields__ if z.name == m["n"])
                setattr(obj, m["n"], part(env, cu.type, {"t": m["t"]}, x[m["n"]]))
            else:
                setattr(obj, path[-1], val)
            v = put(v, path, x)
            after = o.dumps()
            check(len(after) == len(before) == size, "size changed")
            m = mark(env, TOP, v, path, size)
            for i, (q, r, z) in enumerate(zip(before, after, m)):
                check((q ^ r) & ~z & 0xFF == 0, f"compiled={compiled} assigning {path} changed byte {i}", before.hex(), after.hex(), "mask", m.hex())
            enc, mask = env.dumps(TOP, v)
            check(eq_masked(after, enc, mask), f"compiled={compiled} after assigning {path} dumps", after.hex(), "expected", enc.hex())
            check(same(norm(env, TOP, o), v), "after assigning", path, "fields are", norm(env, TOP, o), "expected", v)
            if len(path) > 1:
                labels.add("nested")
            labels.add("nontrivial")
    return [*sorted(labels), *feats(env)]


# --- unions at the top, also of variable size ---------------------------------------------------------------------------
def gen_union(src):
    p, env, v, raw, mask = prog_value(src, Opt(floats=False, wchars=False, helpers=1, only_fixed=False, eof=False))
    u = Gen(src, Opt(floats=False, wchars=False, unions=False, nested=True, bits=False, eof=False, anon=False, lebs=True, empty=False))
    u.p, u.env = p, env
    d = u.sdef("UT", "struct", 1, False)
    d.pop("style", None)
    d["k"] = "union"
    p = {**p, "defs": [*p["defs"], d]}
    fixed = Env(p).layout(d)["size"] is not None
    data = [src.bytes(40) + b"\0" * 8 for _ in range(3)]
    if src.bool():
        data[1] = data[0]
    if src.bool(1, 4):
        data[2] = b"\0" * 48
    return {"p": p, "data": data, "fixed": fixed}


def run_union(c):
    p = c["p"]
    p0 = {**p, "defs": p["defs"]}
    d = p["defs"][-1]
    # a length given by another member of the union is not what this is about
    if any(ln[0] == "e" for f in d["f"] for ln in lens(f["t"])):
        raise Discard
    env = Env(p0)
    U = load(p0, True).resolve("UT")
    vals = []
    for data in c["data"]:
        try:
            vals.append({env.key(d, i): env.parse(f["t"], data)[0] for i, f in enumerate(d["f"])})
        except (Eof, Reject):
            raise Discard from None
    a = [U(x) for x in c["data"]]
    b = [U.read(io.BytesIO(x)) for x in c["data"]]
    for o, v in zip(a, vals):
        got = {f["n"]: norm(env, f["t"], getattr(o, f["n"])) for f in d["f"]}
        check(same(got, v), "parsed", got, "expected", v)
        check(bool(o) == any(not env.falsy(f["t"], v[f["n"]]) for f in d["f"]), "truth of", o)
    differ = False
    for i, (o1, v1) in enumerate(zip(a, vals)):
        for o2, v2 in zip(b, vals):
            check_pair(o1, v1, o2, v2, "union")
            differ |= not eqv(v1, v2)
        check(o1 != None and o1 != 1 and o1 != c["data"][i], "union equals something else")  # noqa: E711
    z = U(), U()
    check(z[0] == z[1] and hash_of(z[0]) == hash_of(z[1]), "defaults differ")
    return [*(["nontrivial"] if differ else []), "fixed" if c["fixed"] else "dynamic"]


def attribute_names():
    """Fields of anonymous members are reached through class attributes, which hide those of the type"""
    out = []
    for n in ("size", "alignment", "fields", "lookup", "dynamic", "cs"):
        try:
            T = cstruct().load(f"struct T {{ uint8 a; struct {{ uint8 {n}; }}; }};").T
            o = T(b"\1\2")
            ok = getattr(o, n) == 2 and o.dumps() == b"\1\2" and o == T(b"\1\2")
            setattr(o, n, 5)
            ok = ok and o.dumps() == b"\1\5"
        except Exception:  # noqa: BLE001
            ok = False
        if not ok:
            out.append(n)
    return f"fields of anonymous members named {', '.join(out)} do not work" if out else None


FINDINGS = {"anonymous-attribute-names": attribute_names}


def run_big(c):
    """One changed bit in a large structure makes it different."""
    p, env, v, raw, mask, data = bigs.case(c)
    src = Source(seed=repr(c))
    data_bytes = [i for i, m in enumerate(mask) if m]
    for compiled, cs, T in modes(p):
        a, b = T(data), T(raw)
        check(a == b and not a != b and b == a, "equal values differ, case", c)
        check(bool(a) == (not env.falsy(TOP, v)), "truth")
        h = hash_of(a)
        check(h == hash_of(b) and (h is not None) == env.hashable(TOP), "hash")
        for i in {data_bytes[0], data_bytes[-1], data_bytes[len(data_bytes) // 2], src.pick(data_bytes), src.pick(data_bytes)}:
            bit = src.pick([1 << j for j in range(8) if mask[i] >> j & 1])
            other = bytearray(raw)
            other[i] ^= bit
            try:
                w, end, buf = env.parse(TOP, bytes(other))
            except (Eof, Reject):
                continue
            if end != len(raw) or has_nan(w):
                continue
            o = T(bytes(other))
            e = eqv(v, w)
            check((o == a) is e and (a == o) is e and (o != a) is not e, "equality with bit", bit, "of byte", i, "changed is", o == a, "expected", e, "case", c)
    return bigs.nontrivial(c)


def subs():
    return [
        Sub("big", run_big, items=lambda t: bigs.items(t, 3 if t == "quick" else 1), rule="long arrays, wide and deeply nested structures"),
        Sub("shapes", run_shape, items=shape_items),
        Sub("pairs", run_pairs, gen_pairs, quick=4000, thorough=300000, show=show_pairs),
        Sub("construct", run_construct, gen_construct, quick=5000, thorough=300000, show=show_case),
        Sub("local", run_local, gen_local, quick=6000, thorough=300000, show=show_case),
        Sub("union", run_union, gen_union, quick=3000, thorough=200000, show=show_case),
    ]
