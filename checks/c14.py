"""C14: no hidden shared state between instances, defaults and cstruct objects."""

import io

from dissect.cstruct import cstruct
from dissect.cstruct.types import BaseType, Field

from checks.c13 import signature
from lib.common import *
from lib.gen import Values, lens
from lib.harness import Discard, Sub
from lib.model import expr_ids
from lib.render import prog_text
from lib.sut import norm_struct
from lib.src import Source

RULE = (
    "Histories. instances: default, keyword, positional and parsed instances of one type are mutated at any depth (fields, nested "
    "structures, list items, appends), every other instance and every default is compared with its snapshot after each step. "
    "cstructs: definitions, types, byte orders, constants and fields are added to one of several cstruct objects, the others are "
    "compared. names: what a name stands for after replacements, on two objects, through every way to look it up. homonyms: structures declared in fields of different structures under the same name. pure: parses, dumps, constructions and failures of several programs interleaved, every parse compared with the "
    "reference model. Non-trivial: a mutation below the top level, or an operation on a second object."
)
ASSUMPTIONS = [
    "values handed to constructors and assignments are not shared by the caller",
    "lists that are union members are not mutated in place",
]


def outcome_any(fn):
    try:
        return ("ok", fn())
    except Exception as e:
        return ("err", type(e).__name__)


# --- instances -------------------------------------------------------------------------------------------------------
def gen_instances(src):
    simple = src.bool()
    unions = simple or src.bool()
    # bytes assigned to one member of a union need not be text or equal to themselves when read as another
    p, env, v, raw, mask = prog_value(src, Opt(mixed=True, floats=not unions, wchars=not unions, unions=unions, helpers=2, empty=src.bool(1, 6)))
    ops = []
    for _ in range(src.int(2, 14)):
        ops.append((src.weighted([(3, "new"), (2, "kw"), (2, "parse"), (1, "pos"), (1, "array"), (8, "mutate"), (1, "fail"), (1, "observe")]), src.int(0, 9), src.int(0, 1 << 16), src.int(0, 1 << 30)))
    return {"p": p, "v": v, "raw": raw, "ops": ops}


def places(env, t, cls, obj, union, path=()):
    """Everything that can be mutated below obj, with the path to it in the model value."""
    if t[0] == "arr":
        if env.is_char(t[1]) or env.is_wchar(t[1]):
            return
        if not union:
            yield ("list", obj, t[1], cls.type, path)
        for i, x in enumerate(obj):
            yield from places(env, t[1], cls.type, x, union or False, (*path, i))
        return
    if t[0] in ("st", "inl"):
        d = env.sdef(t)
        yield from struct_places(env, d, cls, obj, union or d["k"] == "union", path)


def struct_places(env, d, cls, obj, union, path):
    for i, f in enumerate(d["f"]):
        here = (*path, env.key(d, i))
        if f["n"] is None:
            inner = env.sdef(f["t"])
            yield from struct_places(env, inner, cls, obj, union or inner["k"] == "union", here)
            continue
        ft = cls.fields[f["n"]].type
        yield ("field", obj, f, ft, here)
        if union and f["t"][0] == "arr":
            continue
        yield from places(env, f["t"], ft, getattr(obj, f["n"]), union, here)


def within(v, path):
    for k in path:
        v = v[k]
    return v


def list_op(m, seed, items, x):
    if m == 0 or not items:
        items.append(x)
    elif m == 1:
        items[seed % len(items)] = x
    elif m == 2:
        items.pop()
    elif m == 3:
        items.extend([x])
        items.reverse()
    else:
        del items[:]


def parse_parts(env, t, cls, v):
    """A value for the code under test by parsing; arrays element by element, their lengths may depend on other fields."""
    if t[0] == "arr" and isinstance(v, list):
        return [parse_parts(env, t[1], cls.type, x) for x in v]
    return cls.read(env.dumps(t, v)[0])


def value_for(env, f, cls, seed):
    vals = Values(Source(seed=seed), env, 3)
    ctx = {n: seed % 4 for ln in lens(f["t"]) if ln[0] == "e" for n in expr_ids(ln[1])}
    v = vals.value(f["t"], ctx, f.get("b"))
    if not buildable(env, f["t"]) and not f.get("b"):
        return v, parse_parts(env, f["t"], cls, v)
    return v, unnorm(env, cls, f["t"], v, f.get("b"))


def snap(env, t, obj):
    n = repr(norm(env, t, obj))
    return (n, outcome_any(obj.dumps), bool(obj), outcome_any(lambda: hash(obj)), repr(obj))


def dynamic_union(env):
    return any(x[0] in ("st", "inl") and env.sdef(x)["k"] == "union" and env.layout(env.sdef(x))["size"] is None for x in env.walk(TOP))


def run_instances(c):
    p = c["p"]
    env = Env(p)
    labels = set()

    def has_union(t):
        return any(x[0] in ("st", "inl") and env.sdef(x)["k"] == "union" for x in env.walk(t))

    for compiled, cs, T in modes(p):
        names = [d["n"] for d in p["defs"] if d["k"] in ("struct", "union")]
        tops = [(n, ("st", n), cs.resolve(n)) for n in names]

        def defaults():
            out = []
            for n, t, cls in tops:
                out.append((n, snap(env, t, cls()), snap(env, t, cls.__default__())))
                for fn, fl in cls.fields.items():
                    out.append((n, fn, repr(fl.type.__default__())))
            return out

        pristine = defaults()
        for (n, t, cls), rec in zip(tops, [x for x in pristine if len(x) == 3 and isinstance(x[1], tuple)]):
            exp = env.default(t)
            check(same(norm(env, t, cls()), exp), "default of", n, "is", norm(env, t, cls()), "expected", exp)
        data = c["raw"]
        parsed = snap(env, TOP, T(data))
        pool, snaps = [], []
        for step, (k, a, b, seed) in enumerate(c["ops"]):
            what = f"step {step} {k} (compiled={compiled})"
            tgt = None
            if k in ("new", "kw", "pos", "parse", "array") and len(pool) < 8:
                n, t, cls = tops[-1] if b % 3 else tops[a % len(tops)]
                d = env.sdef(t)
                if k == "new":
                    o = cls()
                elif k == "array":
                    # an array of the structure by itself, its elements are instances as well
                    t, cls = ("arr", t, ("n", 1 + b % 3)), cls[1 + b % 3]
                    if seed % 3 == 0:
                        t, cls = ("arr", t, ("n", 2)), cls[2]
                    o = cls.__default__()
                elif k == "parse":
                    n, t, cls = tops[-1]
                    o = cls(io.BytesIO(data)) if b % 2 else cls.read(data)
                elif k == "kw":
                    kw = {}
                    for i, f in enumerate(d["f"]):
                        if f["n"] is not None and (b >> i) & 1 and d["k"] == "struct":
                            kw[f["n"]] = value_for(env, f, cls.fields[f["n"]].type, seed + i)[1]
                    o = cls(**kw)
                else:
                    args = []
                    for i, f in enumerate(d["f"]):
                        if f["n"] is None or i > b % 4 or d["k"] != "struct":
                            break
                        args.append(value_for(env, f, cls.fields[f["n"]].type, seed + i)[1])
                    if len(args) == 1 and isinstance(args[0], (bytes, bytearray)):
                        args = []
                    o = cls(*args)
                pool.append((t, cls, o))
                snaps.append(None)
                tgt = len(pool) - 1
            elif k == "mutate" and pool:
                tgt = a % len(pool)
                t, cls, o = pool[tgt]
                ps = list(places(env, t, cls, o, False))
                if ps:
                    kind, obj, f, ft, path = ps[b % len(ps)]
                    expected = norm(env, t, o)
                    if len(path) > 1:
                        labels.add("nontrivial")
                    if kind == "field":
                        v, x = value_for(env, f, ft, seed)
                        setattr(obj, f["n"], x)
                        within(expected, path[:-1])[path[-1]] = v
                    else:
                        labels.add("list")
                        et = f
                        v, x = value_for(env, {"t": et, "n": ""}, ft, seed)
                        list_op(seed % 5, seed, obj, x)
                        list_op(seed % 5, seed, within(expected, path), v)
                    if not has_union(t):
                        # the place itself and nothing else of the instance, siblings included
                        got = norm(env, t, o)
                        check(same(got, expected), what, "at", path, "gives", got, "expected", expected)
            elif k == "fail":
                outcome_any(lambda: T(data[: b % (len(data) + 1)]))
                outcome_any(lambda: T(no_such_field=1))
                outcome_any(lambda: T.dumps(None))
                outcome_any(lambda: T(*[object()] * 3).dumps())
            elif k == "observe" and pool:
                for _, _, o in pool:
                    repr(o), outcome_any(o.dumps), o == o, outcome_any(lambda o=o: hash(o))
                    for _, _, q in pool:
                        o == q  # noqa: B015
            if tgt is not None:
                t, cls, o = pool[tgt]
                snaps[tgt] = snap(env, t, o)
            for i, (t, cls, o) in enumerate(pool):
                s = snap(env, t, o)
                check(s == snaps[i], what, "changed another instance" if i != tgt else "is unstable", "from", snaps[i], "to", s)
            check(snap(env, TOP, T(data)) == parsed, what, "changed what parsing returns:", snap(env, TOP, T(data)), "was", parsed)
            now = defaults()
            check(now == pristine, what, "changed a default:", [x for x, y in zip(now, pristine) if x != y], "was", [y for x, y in zip(now, pristine) if x != y])
    return [*sorted(labels), *feats(env)]


# --- cstruct objects -------------------------------------------------------------------------------------------------
class Custom(BaseType):
    @classmethod
    def _read(cls, stream, context=None):
        b = stream.read(1)
        if len(b) != 1:
            raise EOFError
        return b[0] ^ cls.key

    @classmethod
    def _write(cls, stream, data):
        return stream.write(bytes([data ^ cls.key]))


def gen_cstructs(src):
    progs = []
    for _ in range(src.int(1, 3)):
        p, env, v, raw, mask = prog_value(src, Opt(maxfields=4, helpers=1, bang=False))
        progs.append({"p": p, "v": v, "raw": raw, "mask": mask})
    insts = [(src.int(0, len(progs) - 1), src.bool()) for _ in range(src.int(2, 4))]
    ops = []
    for _ in range(src.int(1, 10)):
        k = src.pick(["endian", "load", "typedef", "replace", "custom", "const", "field", "pointer", "badload", "parse", "make", "same", "enum", "struct", "update"])
        ops.append((k, src.int(0, len(insts) - 1), src.int(0, 1 << 20)))
    return {"progs": progs, "insts": insts, "ops": ops}


LOADS = [
    "struct Extra { uint8 a; uint32 b; uint16 c[2]; };", "#define K0 9\n#define K1 8\n", "enum E9 : uint8 { A, B };", "typedef uint64 NEWT; struct EX2 { NEWT a; };",
    "union EXU { uint8 a; uint32 b; };", "flag F9 { A, B };", "struct EX3 { uint8 n; char s[n]; struct { uint8 q; }; };", "enum { ANON_A = 7 };", "#define LK 3\n$look = {'LK': 5}\n",
]  # fmt: skip
BAD = ["struct Bad1 { nosuch a; };", "struct Bad2 { uint8 a : 5; uint8 b : 6; };", "struct Bad3 { uint8 a; uint8 a; };", "typedef nosuch X;", "enum Bad4 : nosuch { A };", "struct Bad5 { uint8 a", "} ;", "struct Bad6 { uint8 a[2 };"]


def run_cstructs(c):
    labels = set()
    objs, state = [], []
    for i, (pi, compiled) in enumerate(c["insts"]):
        pr = c["progs"][pi]
        p = pr["p"]
        cs = cstruct(endian=p["endian"], pointer=p["ptr"])
        cs.load(prog_text(p), compiled=compiled, align=p["align"])
        objs.append(cs)
        # byte order at the moment; None: T was changed on purpose
        state.append({"endian": p["endian"], "prog": pr, "touched": False, "pi": pi})

    def names(i):
        return [d["n"] for d in state[i]["prog"]["p"]["defs"]]

    def observe(i):
        cs, st = objs[i], state[i]
        out = [signature(cs, [n for n in names(i)]), repr(cs.lookups), repr(cs.consts), sorted(cs.typedefs), cs.endian, cs.pointer.__name__, cs.pointer.cs is cs]
        for n in names(i):
            T = cs.resolve(n)
            out.append(T.cs is cs)
            out.append(repr(outcome_any(lambda T=T: T())))
        data = st["prog"]["raw"]
        out.append(repr(outcome_any(lambda: norm(Env(st["prog"]["p"]), TOP, cs.T(data)))) if not st["touched"] else None)
        out.append(repr(outcome_any(lambda: cs.T(data).dumps())))
        out.append(repr(outcome_any(lambda: cs.uint32(b"\1\2\3\4"))))
        out.append(repr(outcome_any(lambda: cs.uint24(b"\1\2\3"))))
        out.append(repr(outcome_any(lambda: cs.wchar(b"\1\2"))))
        return out

    for i in range(len(objs)):
        st = state[i]
        env = Env(st["prog"]["p"])
        got = norm(env, TOP, objs[i].T(st["prog"]["raw"]))
        check(same(got, st["prog"]["v"]), "parsed", got, "expected", st["prog"]["v"])
    base = [observe(i) for i in range(len(objs))]
    for step, (k, i, x) in enumerate(c["ops"]):
        cs, st = objs[i], state[i]
        what = f"step {step}: {k} on object {i}"
        keep = True  # the operation leaves the existing types of the same object alone
        if k == "endian":
            cs.endian = "<>"[x % 2]
            keep = False
        elif k == "load":
            outcome_any(lambda: cs.load(LOADS[x % len(LOADS)]))
            keep = x % len(LOADS) != 1  # constants are used by counts
        elif k == "typedef":
            cs.add_type(f"TD_{x % 5}", cs.uint8, replace=True)
        elif k == "replace":
            cs.add_type("uint32", cs.uint8, replace=True)
            keep = False
        elif k == "custom":
            key = x % 256
            n = f"cust{x % 3}"
            if n not in cs.typedefs:
                cs.add_custom_type(n, Custom, 1, 1, key=key)
                cs.load(f"struct C_{n} {{ {n} a; {n} b[2]; }};")
                st.setdefault("custom", {})[n] = key
        elif k == "const":
            cs.consts["K0"] = x % 7
            keep = False
        elif k == "field":
            outcome_any(lambda: cs.T.add_field(f"added{step}", cs.uint8))
            st["touched"] = True
            keep = False
        elif k == "update":
            with cs.T.start_update():
                cs.T.add_field(f"added{step}", cs.resolve("uint16"))
            st["touched"] = True
            keep = False
        elif k == "pointer":
            cs.pointer = cs.uint16
            keep = False
        elif k == "badload":
            outcome_any(lambda: cs.load(BAD[x % len(BAD)]))
        elif k == "parse":
            for n in names(i):
                outcome_any(lambda n=n: cs.resolve(n)(st["prog"]["raw"][: x % 9]))
                outcome_any(lambda n=n: cs.resolve(n)())
        elif k == "make":
            for n in names(i):
                T = cs.resolve(n)
                T[2], T[None]
                cs._make_pointer(T)
        elif k == "same":
            # another object with the same text
            p = st["prog"]["p"]
            o = cstruct(endian="<>"[x % 2], pointer="uint8")
            o.load(prog_text(p), compiled=bool(x & 2), align=bool(x & 4))
            outcome_any(lambda: o.T(st["prog"]["raw"]))
            outcome_any(lambda: o.T().dumps())
        elif k == "enum":
            outcome_any(lambda: cs.load("enum E0 : uint8 { OTHER = 77 };"))
        else:
            outcome_any(lambda: cs.load(f"struct N{step} {{ {names(i)[-1]} a; uint8 b; }};", compiled=bool(x & 1), align=bool(x & 2)))
        labels.add(k)
        for j in range(len(objs)):
            now = observe(j)
            if j != i:
                check(now == base[j], what, f"changed object {j}:", [a for a, b in zip(now, base[j]) if a != b], "was", [b for a, b in zip(now, base[j]) if a != b])
                labels.add("nontrivial")
            elif keep:
                for n in names(j):
                    check(now[0][n] == base[j][0][n], what, "changed", n, "of the same object")
                check(now[4:] == base[j][4:], what, "changed the types of the same object:", [a for a, b in zip(now[4:], base[j][4:]) if a != b])
            base[j] = now
            for n, key in state[j].get("custom", {}).items():
                s = objs[j].resolve(f"C_{n}")(bytes([1, 2, 3]))
                check((s.a, list(s.b)) == (1 ^ key, [2 ^ key, 3 ^ key]) and s.dumps() == b"\1\2\3", what, "custom type of object", j, "has another key")
            # the byte order of the object, as the model sees it
            if not state[j]["touched"] and not any(o[0] in ("replace", "const", "load", "pointer") for o in c["ops"][: step + 1] if o[1] == j):
                p = dict(state[j]["prog"]["p"], endian=objs[j].endian)
                env = Env(p)
                try:
                    v, _, _ = env.parse(TOP, state[j]["prog"]["raw"])
                    if has_nan(v):
                        continue
                except (Eof, Reject):
                    continue
                o = outcome_any(lambda: norm(env, TOP, objs[j].T(state[j]["prog"]["raw"])))  # noqa: B023
                check(o[0] == "ok" and same(o[1], v), what, "object", j, "parses", o, "expected", v)
    return sorted(labels)


def show_cstructs(c):
    return "\n".join(show_case(x) for x in c["progs"]) + f"\n{c['insts']} {c['ops']}"


# --- names -----------------------------------------------------------------------------------------------------------
NAMES = ["A", "B", "C", "uint32", "DWORD", "N_1"]
NDEFS = [
    {"k": "enum", "n": "E", "u": "uint16", "m": [("M0", None), ("M1", None)]},
    {"k": "struct", "n": "S", "f": [{"n": "p", "t": ("s", "uint8"), "b": None}, {"n": "q", "t": ("s", "uint16"), "b": None}]},
    {"k": "struct", "n": "S2", "f": [{"n": "p", "t": ("s", "int24"), "b": None}, {"n": "q", "t": ("arr", ("s", "char"), ("n", 2)), "b": None}]},
    {"k": "union", "n": "U", "f": [{"n": "p", "t": ("s", "uint8"), "b": None}, {"n": "q", "t": ("s", "uint32"), "b": None}]},
]
NTYPES = [("s", "uint8"), ("s", "int8"), ("s", "uint16"), ("s", "uint24"), ("s", "int32"), ("s", "uint64"), ("s", "char"), ("s", "uint128"), ("enum", "E"), ("st", "S"), ("st", "S2"), ("st", "U"),
          ("arr", ("s", "uint16"), ("n", 2)), ("arr", ("s", "char"), ("n", 3)), ("ptr", ("s", "uint8"))]  # fmt: skip


def gen_names(src):
    ops = []
    for _ in range(src.int(2, 14)):
        k = src.weighted([(6, "replace"), (2, "ref"), (2, "add"), (1, "typedef"), (1, "endian"), (2, "struct"), (1, "custom"), (1, "expr")])
        ops.append((k, src.int(0, 1), src.pick(NAMES), src.pick(NAMES), src.int(0, len(NTYPES) - 1), src.int(0, 1 << 16)))
    return {"ops": ops, "compiled": src.bool(), "data": src.bytes(40), "every": src.bool(3, 4)}


def run_names(c):
    """What a name stands for is decided by the last definition alone, on each object"""
    from dissect.cstruct.expression import Expression

    objs = []
    data = bytes(c["data"])
    for i in range(2):
        cs = cstruct(endian="<>"[i], pointer="uint16")
        cs.load(prog_text({"consts": [], "defs": NDEFS}), compiled=c["compiled"])
        types = {}
        for t in [*NTYPES, ("s", "uint32")]:
            x = t if t[0] not in ("arr", "ptr") else t[1]
            T = cs.resolve(x[1])
            types[t] = T if x is t else cs._make_pointer(T) if t[0] == "ptr" else T[t[2][1]]
        objs.append({"cs": cs, "types": types, "names": {"uint32": ("s", "uint32"), "DWORD": "uint32"}, "structs": [], "exprs": [], "endian": "<>"[i]})

    def look(o, n):
        for _ in range(9):
            if n not in o["names"]:
                return None
            n = o["names"][n]
            if not isinstance(n, str):
                return n
        return None

    def cyclic(o, n, target):
        while isinstance(target, str):
            if target == n:
                return True
            target = o["names"].get(target)
        return False

    def verify(what):
        for o in objs:
            cs = o["cs"]
            env = Env({"endian": o["endian"], "align": False, "ptr": "uint16", "consts": [], "defs": NDEFS})
            for n in NAMES:
                t = look(o, n)
                if t is None:
                    expect(lambda: cs.resolve(n), ResolveError)  # noqa: B023
                    expect(lambda: cs.read(n, data), ResolveError)  # noqa: B023
                    expect(lambda: getattr(cs, n), AttributeError, ResolveError)  # noqa: B023
                    continue
                T = o["types"][t]
                w = f"{what}: {n} stands for {t}"
                check(cs.resolve(n) is T and getattr(cs, n) is T and cs.resolve(T) is T, w, "but resolves to", cs.resolve(n), getattr(cs, n))
                exp, size, _ = env.parse(t, data)
                fh = io.BytesIO(b"?" + data)
                fh.seek(1)
                got = norm(env, t, cs.read(n, fh))
                check(same(got, exp) and fh.tell() == 1 + size, w, "but reads", got, "expected", exp)
                check(same(norm(env, t, cs.read(n, data)), exp), w, "but reads", cs.read(n, data), "expected", exp)
                check(same(norm(env, t, getattr(cs, n)(data)), exp), w, "but parses", getattr(cs, n)(data), "expected", exp)
                check(Expression(cs, f"sizeof({n})").evaluate() == size == len(T), w, "but its size is", Expression(cs, f"sizeof({n})").evaluate())
            for n, x in o["exprs"]:
                got, exp = outcome_any(x.evaluate), outcome_any(lambda: Expression(cs, f"sizeof({n}) * 3").evaluate())  # noqa: B023
                check(got == exp, what, "an expression with", n, "gives", got, "a new one", exp)
            # structures keep what they were defined with
            for sn, t, k in o["structs"]:
                d = {"k": "struct", "n": sn, "f": [{"n": "a", "t": t, "b": None}, {"n": "b", "t": ("arr", t, ("n", k)), "b": None}, {"n": "z", "t": ("s", "uint8"), "b": None}]}
                e2 = Env({"endian": o["endian"], "align": False, "ptr": "uint16", "consts": [], "defs": [*NDEFS, d]})
                big = data * 5
                exp, size, _ = e2.parse(("st", sn), big)
                T = cs.resolve(sn)
                fh = io.BytesIO(big)
                got = norm(e2, ("st", sn), T.read(fh))
                check(same(got, exp) and fh.tell() == size == len(T), what, sn, "made of", t, "parses", got, "expected", exp)
                check(same(norm(e2, ("st", sn), cs.read(sn, big)), exp), what, sn, "made of", t, "reads", cs.read(sn, big), "expected", exp)

    ResolveError = __import__("dissect.cstruct.exceptions", fromlist=["ResolveError"]).ResolveError
    if c["every"]:
        verify("initially")
    changed = 0
    for step, (k, i, n, m, ti, x) in enumerate(c["ops"]):
        o = objs[i]
        cs, t = o["cs"], NTYPES[ti]
        what = f"step {step} {k} {n}"
        old = look(o, n)
        if k == "replace":
            cs.add_type(n, o["types"][t], replace=True)
            o["names"][n] = t
            changed += old is not None and old != t
        elif k == "ref":
            if cyclic(o, n, m):
                continue
            cs.add_type(n, m, replace=True)
            o["names"][n] = m
            changed += old is not None and old != look(o, n)
        elif k == "add":
            if n in o["names"] and old != t:
                if old is not None:
                    expect(lambda: cs.add_type(n, o["types"][t]), ValueError)  # noqa: B023
            else:
                cs.add_type(n, o["types"][t])
                o["names"][n] = t
        elif k == "typedef":
            if n not in o["names"] and look(o, m) is not None:
                cs.load(f"typedef {m} {n};", compiled=c["compiled"])
                o["names"][n] = look(o, m)
        elif k == "endian":
            o["endian"] = cs.endian = "<>"[x % 2]
        elif k == "struct":
            if old is not None:
                cs.load(f"struct St{step} {{ {n} a; {n} b[{x % 4}]; uint8 z; }};", compiled=c["compiled"])
                o["structs"].append((f"St{step}", old, x % 4))
        elif k == "expr":
            o["exprs"].append((n, Expression(cs, f"sizeof({n}) * 3")))
        elif f"cust{n}" not in cs.typedefs:
            cs.add_custom_type(f"cust{n}", Custom, 1, 1, key=x % 256)
            check(cs.read(f"cust{n}", b"\5") == 5 ^ x % 256, what, "custom type")
        if c["every"]:
            verify(what)
    verify("at the end")
    return ["nontrivial" if changed else "first"]


# --- homonyms --------------------------------------------------------------------------------------------------------
HFIELDS = {
    4: [[("uint8", 4)], [("uint16", 2)], [("uint32", 0)], [("int32", 0)], [("char", 4)], [("uint8", 0), ("uint24", 0)], [("float", 0)], [("uint16", ":4"), ("uint16", ":12"), ("int16", 0)],
        [("char", 0), ("uint16", 0), ("char", 0)], [("wchar", 2)], [("ptr", 0), ("int16", 0)], [("int16", 0), ("ptr", 0)]],
    2: [[("uint8", 2)], [("uint16", 0)], [("int16", 0)], [("char", 2)], [("wchar", 0)], [("uint8", 0), ("int8", 0)], [("uint16", ":3"), ("uint16", ":13")], [("ptr", 0)]],
}  # fmt: skip


def gen_homonyms(src):
    size = src.pick([2, 4, 4])
    mixed = src.bool(1, 4)  # sizes differ as well

    def struct(i, depth):
        same_names = src.bool()
        fields = []
        for j, (n, k) in enumerate(src.pick(HFIELDS[src.pick([2, 4]) if mixed else size])):
            t = ("ptr", ("s", "uint8")) if n == "ptr" else ("s", n)
            b = None
            if isinstance(k, str):
                b = int(k[1:])
            elif k:
                t = ("arr", t, ("n", k))
            fields.append({"n": f"f{j}" if same_names else f"g{i}{j}", "t": t, "b": b})
        d = {"k": "union" if src.bool(1, 4) and not any(f["b"] for f in fields) else "struct", "tag": src.pick(["E", "E", "E", "F"]), "f": fields}
        if depth and src.bool(1, 3):
            return {"k": "struct", "tag": src.pick(["E", "F"]), "f": [{"n": "i", "t": wrap(("inl", d)), "b": None}]}
        return d

    def wrap(t):
        k = src.weighted([(2, "plain"), (4, "arr"), (2, "arr2"), (1, "e"), (1, "z"), (1, "ptr")])
        if k == "plain":
            return t
        if k == "z":
            return ("arr", t, ("z",))
        if k == "e":
            return ("arr", t, ("e", ("bin", "+", ("num", 1, "1"), ("num", 1, "1"))))
        if k == "ptr":
            return ("arr", ("ptr", t), ("n", 2))
        t = ("arr", t, ("n", 2))
        return ("arr", t, ("n", src.pick([2, 3]))) if k == "arr2" else t

    defs = [{"k": "struct", "n": f"H{i}", "f": [{"n": "x", "t": wrap(("inl", struct(i, 1))), "b": None}, {"n": "z", "t": ("s", "uint8"), "b": None}]} for i in range(src.int(2, 5))]
    return {"defs": defs, "compiled": src.bool(2, 3), "align": src.bool(1, 4), "be": src.bool(), "data": src.bytes(120), "order": [src.int(0, 4) for _ in range(src.int(1, 6))], "one": src.bool()}


def run_homonyms(c):
    """Types of the same name (structures that are declared in a field) are still different types"""
    p = {"endian": "<>"[c["be"]], "align": c["align"], "ptr": "uint16", "consts": [], "defs": c["defs"]}
    env = Env(p)
    data = bytes(x % 9 for x in c["data"]) + bytes(32)
    cs = cstruct(endian=p["endian"], pointer="uint16")
    text = [prog_text({"consts": [], "defs": [d]}) for d in c["defs"]]
    for part in ["".join(text)] if c["one"] else text:
        cs.load(part, compiled=c["compiled"], align=c["align"])
    shapes = set()
    for i in [*range(len(c["defs"])), *c["order"]]:
        d = c["defs"][i % len(c["defs"])]
        shapes.add(repr(d["f"][0]["t"]))
        t, T = ("st", d["n"]), cs.resolve(d["n"])
        target = d["f"][0]["t"]
        target = target[1] if target[0] == "arr" else target
        if target[0] == "ptr":
            data = b"".join(x.to_bytes(2, "big" if c["be"] else "little") for x in (20, 41)) + data[4:]
        try:
            exp, size, _ = env.parse(t, data)
        except Exception as e:
            raise Discard(str(e))
        fh = io.BytesIO(data)
        obj = T(fh)
        got = norm(env, t, obj)
        check(same(got, exp) and fh.tell() == size, d["n"], "parses", got, "expected", exp, "size", size, fh.tell())
        if target[0] == "ptr":
            for ptr in obj.x:
                try:
                    exp, _, _ = env.parse(target[1], data[ptr:])
                except Exception as e:
                    raise Discard(str(e))
                if not c["align"]:  # the target is at an odd offset
                    check(same(norm(env, target[1], ptr.dereference()), exp), d["n"], "points to", ptr.dereference(), "expected", exp)
        if T.size is not None:
            check(len(T) == size, d["n"], "size", len(T), size)
            check(T(obj.dumps()) == obj, d["n"], "does not parse what it dumps")
            check(same(norm(env, t, T(bytes(size))), norm(env, t, T())), d["n"], "default", T())
    return ["nontrivial" if len(shapes) > 1 else "one"]


def show_homonyms(c):
    return prog_text({"consts": [], "defs": c["defs"]}) + f"be={c['be']} align={c['align']} compiled={c['compiled']} one={c['one']} {c['data'].hex()}"


# --- purity ----------------------------------------------------------------------------------------------------------
def gen_pure(src):
    progs = []
    for _ in range(src.int(1, 3)):
        p, env, v, raw, mask = prog_value(src, Opt(mixed=True, maxfields=4, helpers=1, huge=True))
        garbage = src.bytes(src.int(0, len(raw) + 6))
        v2 = gen_value(src, env, TOP)
        raw2, mask2 = env.dumps(TOP, v2)
        progs.append({"p": p, "ins": [(v, raw, mask), (v2, raw2, mask2)], "garbage": garbage})
    ops = [(src.int(0, 15), src.int(0, len(progs) - 1), src.int(0, 1 << 20)) for _ in range(src.int(2, 14))]
    return {"progs": progs, "ops": ops}


class Broken(io.BytesIO):
    def __init__(self, data, n):
        super().__init__(data)
        self.n = n

    def read(self, *a):
        self.n -= 1
        if self.n < 0:
            raise OSError("broken")
        return super().read(*a)


def run_pure(c):
    labels = set()
    objs = []
    for pr in c["progs"]:
        objs.append([load(pr["p"], True), load(pr["p"], False)])

    def verify(i, what):
        pr = c["progs"][i]
        env = Env(pr["p"])
        for cs, mode in zip(objs[i], ("compiled", "interpreted")):
            T = cs.T
            for v, raw, mask in pr["ins"]:
                tail = b"" if "arr-eof" in features(env, TOP) else b"\xa5" * 3
                o, end = read_all(T, b"\x99" * 16 + raw + tail, 16)
                got = norm(env, TOP, o)
                check(same(got, v), what, mode, "parsed", got, "expected", v)
                check(end - 16 == len(raw), what, mode, "consumed", end - 16, "expected", len(raw))
                check(eq_masked(o.dumps(), raw, mask), what, mode, "dumped", o.dumps().hex(), "expected", raw.hex())
            d = norm(env, TOP, T())
            check(same(d, env.default(TOP)), what, mode, "default", d, "expected", env.default(TOP))

    for i in range(len(objs)):
        verify(i, "initially")
    for step, (k, i, x) in enumerate(c["ops"]):
        pr = c["progs"][i]
        v, raw, mask = pr["ins"][x % 2]
        what = f"step {step}: operation {k} on program {i}"
        for cs in objs[i]:
            T = cs.T
            o = T(raw)
            if k == 0:
                outcome_any(lambda: T(raw[: x % (len(raw) + 1)]))
            elif k == 1:
                outcome_any(lambda: norm(Env(pr["p"]), TOP, T(pr["garbage"])))
            elif k == 2:
                outcome_any(lambda: T(Broken(raw, x % 7)))
            elif k == 3:
                for f in T.fields:
                    outcome_any(lambda: setattr(o, f, object()))
                outcome_any(o.dumps)
            elif k == 4:
                outcome_any(lambda: T(*[None] * len(T.__fields__)).dumps())
                outcome_any(lambda: T(bogus=1))
            elif k == 5:
                outcome_any(lambda: hash(o)), repr(o), o == T(raw), bool(o)
            elif k == 6:
                for n in list(T.fields):
                    t = T.fields[n].type
                    outcome_any(lambda: t(raw))
                    outcome_any(lambda: t[3](raw))
                    outcome_any(lambda: t[None](raw))
                    outcome_any(lambda: t.dumps(getattr(o, n)))
                    outcome_any(lambda: t.dumps("nonsense"))
            elif k == 7:
                outcome_any(lambda: cs.load(BAD[x % len(BAD)]))
            elif k == 8:
                outcome_any(lambda: cs.load(f"struct New{step} {{ uint8 n; T t; uint16 z[n]; }};"))
                outcome_any(lambda: cs.resolve(f"New{step}")(b"\1" + raw + b"\0" * 4))
            elif k == 9:
                # nested parse of another structure in the middle
                T.read(io.BytesIO(raw))
                for n in list(cs.typedefs)[:4]:
                    outcome_any(lambda: cs.resolve(n)(raw))
            elif k == 10:
                for n, f in T.fields.items():
                    y = getattr(o, n)
                    if isinstance(y, list):
                        y.append(None)
                        y.clear()
            elif k == 11:
                # a structure with as many fields, other names
                j = len(T.__fields__)
                cs2 = cstruct()
                cs2.load("struct Z { " + " ".join(f"uint8 zz{q};" for q in range(j)) + " };")
                cs2.Z(bytes(range(j)))
                cs2.Z(*range(j)) if j > 1 else cs2.Z()
                hash(cs2.Z()), bool(cs2.Z()), cs2.Z() == cs2.Z()
            elif k == 12:
                e = cs.endian
                cs.endian = "<" if e == ">" else ">"
                outcome_any(lambda: T(raw))
                outcome_any(o.dumps)
                cs.endian = e
            elif k == 13:
                ctx = {n: x % 5 for n in T.fields}
                for f in T.fields.values():
                    ne = getattr(f.type, "num_entries", None)
                    if hasattr(ne, "evaluate"):
                        outcome_any(lambda: ne.evaluate({}))
                        outcome_any(lambda: ne.evaluate(ctx))
                        outcome_any(lambda: ne.evaluate(None))
            elif k == 14:
                for f in T.fields.values():
                    if hasattr(f.type, "__members__"):
                        for val in range(x % 300, x % 300 + 20):
                            outcome_any(lambda: f.type(val))
            else:
                out = io.BytesIO()
                outcome_any(lambda: o.write(out))
                fh = io.BytesIO(raw * 2)
                outcome_any(lambda: T(fh))
                outcome_any(lambda: T(fh))
        labels.add("nontrivial")
        for j in range(len(objs)):
            verify(j, what)
    return sorted(labels)


def show_pure(c):
    return "\n".join(f"{x['p']['endian']} align={x['p']['align']} {prog_text(x['p'])} {x['ins']} {x['garbage']!r}" for x in c["progs"]) + f"\n{c['ops']}"


def subs():
    return [
        Sub("instances", run_instances, gen_instances, quick=3000, thorough=200000, show=show_case),
        Sub("cstructs", run_cstructs, gen_cstructs, quick=1500, thorough=100000, show=show_cstructs),
        Sub("names", run_names, gen_names, quick=3000, thorough=200000),
        Sub("homonyms", run_homonyms, gen_homonyms, quick=2000, thorough=100000, show=show_homonyms),
        Sub("pure", run_pure, gen_pure, quick=2500, thorough=200000, show=show_pure),
    ]
