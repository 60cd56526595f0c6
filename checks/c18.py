"""C18: incrementally built or self-referential structures equal the one-shot definition."""

import io
import re

from dissect.cstruct import compiler, cstruct
from dissect.cstruct.types import Field

from checks.c13 import describe
from checks.c17 import ROUTES, env_ok, hash_of, make
from lib.common import *
from lib.gen import lens
from lib.harness import Discard, Sub
from lib.render import body, prog_text
from lib.src import Source
from lib.sut import has_anon_union

RULE = (
    "Every structure is loaded in one piece and built again from a prefix (loaded or made empty) plus add_field steps, committed one "
    "by one, in start_update batches or by commit(), interleaved with uses and with additions that must fail; after every commit the "
    "type is compared with the one-shot definition of that prefix (layout, compiled flag, parse, dump, defaults, equality, hash, "
    "construction, arrays and sizeof) and with the reference model. kinds: all sequences of field kinds x all splits. self: "
    "structures that refer to themselves. offsets: fields at given offsets. Non-trivial: at least two commits after the prefix."
)
ASSUMPTIONS = [
    "instances made before a field is added are not used afterwards",
    "a structure that contains another by value is defined after the other is complete",
    "typedef struct T {...} X; does not make T known inside its own body (ResolveError); only struct T {...} is self-referential",
]


def prefix_prog(p, k, name="T"):
    d = p["defs"][-1]
    return {**p, "defs": [*p["defs"][:-1], {**d, "f": d["f"][:k]}]}


def sig(cs, T):
    """Layout signature without the name of the type itself"""
    s = describe(cs, T)
    return repr(s[1:]).replace(repr(T.__name__), "'SELF'").replace(f"'{T.__name__}*", "'SELF*").replace(f"'{T.__name__}[", "'SELF[")


def compiled_reader(T):
    """Is the reader generated code?"""
    fn = getattr(T._read, "__func__", T._read)
    return T.__compiled__, fn.__code__.co_filename.startswith("<compiled") or hasattr(fn, "__source__")


def behaviour(env, cs, T, v, raw, mask, tail, what, k):
    """The type must behave as the model of its definition says"""
    fh = io.BytesIO(b"\x55" * 16 + raw + tail)
    fh.seek(16)
    o = T.read(fh)
    check(fh.tell() == 16 + len(raw), what, "consumed", fh.tell() - 16, "expected", len(raw))
    got = norm(env, TOP, o)
    check(same(got, v), what, "parsed", got, "expected", v)
    check(eq_masked(o.dumps(), raw, mask), what, "dumped", o.dumps().hex(), "expected", raw.hex())
    lay = env.layout(env.sdef(TOP))
    check(T.size == lay["size"] and T.dynamic == (lay["size"] is None), what, "size", T.size, "expected", lay["size"])
    offs = [f.offset for f, u in zip(T.__fields__, lay["units"]) if u is None or u[0]]
    check(offs == [x for x, u in zip(lay["offsets"], lay["units"]) if u is None or u[0]], what, "offsets", offs, "expected", lay["offsets"])
    dflt = env.default(TOP)
    check(same(norm(env, TOP, T()), dflt), what, "default", norm(env, TOP, T()), "expected", dflt)
    p2 = T(raw)
    check(o == p2 and hash_of(o) == hash_of(p2), what, "equality")
    check(bool(o) == (not env.falsy(TOP, v)), what, "truth")
    names = [f["n"] for f in env.sdef(TOP)["f"] if f["n"]]
    check(all(n in T.fields for n in names) and all(f"{n}=" in repr(o) for n in names), what, "fields", list(T.fields), repr(o))
    if lay["size"]:
        check(len(T) == lay["size"] and len(T[2]) == 2 * len(T) and T[2].size == 2 * len(T), what, "len of the array type", len(T[2]))
        arr = T[2](raw + raw)
        check([norm(env, TOP, x) for x in arr] == [v, v] or all(same(norm(env, TOP, x), v) for x in arr), what, "array", arr)
    if names and not has_anon_union(env, env.sdef(TOP)):
        q = make(env, T, v, raw, ROUTES[2 + k % 3])
        check(same(norm(env, TOP, q), v) and q == o and o == q, what, "constructed", q, "parsed", o)
    for cut in (len(raw) - 1, len(raw) // 2):
        if cut >= 0 and not any(ln[0] == "eof" for f in env.sdef(TOP)["f"] for ln in lens(f["t"])):
            a = outcome(lambda: norm(env, TOP, T(raw[:cut])))  # noqa: B023
            try:
                exp = ("ok", env.parse(TOP, raw[:cut])[0])
            except Eof:
                exp = None
            except Reject:
                continue
            check((a[0] == "err") == (exp is None) or not mask[cut:].strip(b"\0"), what, "truncated input gives", a, "expected", exp)


def compare_types(env, cs, one, inc, datas, what):
    """Two types with the same definition"""
    check(sig(cs, one) == sig(cs, inc), what, "layout", sig(cs, inc), "one-shot", sig(cs, one))
    check(compiled_reader(one) == compiled_reader(inc), what, "compiled", compiled_reader(inc), "one-shot", compiled_reader(one))
    check(one.alignment == inc.alignment and one.size == inc.size, what, "size or alignment", inc.size, inc.alignment, "one-shot", one.size, one.alignment)
    check(list(one.fields) == list(inc.fields) and len(one.lookup) == len(inc.lookup), what, "field tables", list(inc.fields), list(one.fields))
    for data in datas:
        def get(T):
            fh = io.BytesIO(data)  # noqa: B023
            o = T(fh)
            return norm(env, TOP, o), fh.tell(), o.dumps(), bool(o), re.sub(r"__anonymous_\d+__", "anon", repr(o))[len(T.__name__) + 1 :], hash_of(o) is None

        a, b = outcome(lambda: get(one)), outcome(lambda: get(inc))  # noqa: B023
        if a[0] == "ok" and b[0] == "ok":
            check(same(a[1][0], b[1][0]) and a[1][1:] == b[1][1:], what, "on", data.hex(), "gives", b, "one-shot", a)
        else:
            check(a == b, what, "on", data.hex(), "gives", b, "one-shot", a)


# --- generated -------------------------------------------------------------------------------------------------------
def gen_inc(src):
    p, env, v, raw, mask = prog_value(src, Opt(maxfields=src.pick([4, 6, 9]), huge=True))
    d = env.sdef(TOP)
    d.pop("style", None)
    n = len(d["f"])
    start = src.int(0, n)
    steps = []
    at = start
    while at < n:
        k = src.int(1, min(3, n - at))
        at += k
        steps.append((k, src.weighted([(3, "each"), (2, "batch"), (1, "nested"), (1, "raise")]), src.weighted([(2, None), (2, "use"), (1, "dup"), (1, "straddle"), (1, "type")])))
    if src.bool(1, 6):
        steps.append((0, "batch", None))
    return {"p": p, "v": v, "start": start, "steps": steps, "how": src.int(0, 2), "data": [dirty(src, raw, mask), src.bytes(len(raw) + 4)], "uses": src.bool()}


def field_args(f):
    return f.name, f.type, f.bits


def add(T, fs, how):
    if how == "each":
        for f in fs:
            T.add_field(f.name, f.type, bits=f.bits)
    elif how == "batch":
        with T.start_update():
            for f in fs:
                T.add_field(f.name, f.type, bits=f.bits)
    elif how == "nested":
        with T.start_update():
            for f in fs[:-1]:
                T.add_field(f.name, f.type, bits=f.bits)
        T.add_field(fs[-1].name, fs[-1].type, bits=fs[-1].bits)
    else:
        # an exception in the middle of a batch: what has been added before is there
        try:
            with T.start_update():
                for f in fs:
                    T.add_field(f.name, f.type, bits=f.bits)
                raise KeyError("stop")
        except KeyError:
            pass


def start_type(p, cs, one, start, how, compiled):
    """-> the structure with the first fields only"""
    if how == 0:
        d = p["defs"][-1]
        cs.load(f"struct Inc {body({**d, 'f': d['f'][:start]})};", compiled=compiled, align=p["align"])
        return cs.Inc
    fs = [Field(f.name, f.type, bits=f.bits) for f in one.__fields__[:start]]
    if how == 1:
        T = cs._make_struct("Inc", fs, align=p["align"])
        T = compiler.compile(T) if compiled else T
        cs.add_type("Inc", T, replace=True)
        return T
    # empty at first
    T = cs._make_struct("Inc", [], align=p["align"])
    if compiled:
        T = compiler.compile(T)
    cs.add_type("Inc", T, replace=True)
    with T.start_update():
        for f in fs:
            T.add_field(f.name, f.type, bits=f.bits)
    return T


def run_inc(c):
    p = c["p"]
    full = Env(p)
    d = full.sdef(TOP)
    n = len(d["f"])
    commits = 0
    for compiled, cs, one in modes(p):
        inc = start_type(p, cs, one, c["start"], c["how"], compiled)
        at = c["start"]

        def verify(k, what):
            pk = prefix_prog(p, k)
            env = Env(pk)
            v = {env.key(d, i): c["v"][full.key(d, i)] for i in range(k)}
            raw, mask = env.dumps(TOP, v)
            eof = any(ln[0] == "eof" for f in d["f"][:k] for ln in lens(f["t"]))
            behaviour(env, cs, inc, v, raw, mask, b"" if eof else b"\xa5" * 3, what, k)

        verify(at, f"prefix of {at} compiled={compiled}")
        for k, how, extra in c["steps"]:
            fs = one.__fields__[at : at + k]
            what = f"fields {at}..{at + k} {how} after {extra} compiled={compiled}"
            before = sig(cs, inc), compiled_reader(inc)
            if extra == "dup" and at and one.__fields__[0].name:
                expect(lambda: inc.add_field(one.__fields__[0].name, cs.uint8), ValueError)
            elif extra == "straddle":
                expect(lambda: inc.add_field("zz_bad", cs.uint8, bits=9), ValueError)
            elif extra == "type":
                outcome(lambda: inc.add_field("zz_bad", None))
            elif extra == "use":
                outcome(lambda: inc(c["data"][0]))
                outcome(lambda: inc().dumps())
                outcome(lambda: hash(inc()))
                inc[2], inc[None], inc() == inc()
            if extra in ("dup", "straddle", "type"):
                check((sig(cs, inc), compiled_reader(inc)) == before, what, "a failing addition left", sig(cs, inc))
                verify(at, f"{what}: after a failing addition")
            if k == 0:
                inc.commit()
            else:
                add(inc, fs, how)
            at += k
            commits += 1
            verify(at, what)
        compare_types(full, cs, one, inc, c["data"], f"compiled={compiled}")
        inc.commit()
        compare_types(full, cs, one, inc, c["data"], f"after one more commit, compiled={compiled}")
        # the one-shot type is extended too: nothing is shared
        cs.load(f"struct Emb {{ uint8 a; Inc t; uint16 z[{'sizeof(Inc)' if inc.size is not None and inc.size < 99 else 1}]; }};", compiled=compiled, align=p["align"])
        cs.load(f"struct Emb2 {{ uint8 a; T t; uint16 z[{'sizeof(T)' if inc.size is not None and inc.size < 99 else 1}]; }};", compiled=compiled, align=p["align"])
        a, b = cs.Emb, cs.Emb2
        check((a.size, a.alignment, [f.offset for f in a.__fields__]) == (b.size, b.alignment, [f.offset for f in b.__fields__]), "embedding structures differ")
        one.add_field("zz_last", cs.uint16)
        check("zz_last" not in inc.fields and "zz_last" in one.fields, "fields are shared")
        inc.add_field("zz_last", cs.uint16)
        if not any(ln[0] == "eof" for f in d["f"] for ln in lens(f["t"])):
            p2 = {**p, "defs": [*p["defs"][:-1], {**d, "f": [*d["f"], {"n": "zz_last", "t": ("s", "uint16"), "b": None}]}]}
            compare_types(Env(p2), cs, one, inc, c["data"], f"compiled={compiled} with another field")
    return [*(["nontrivial"] if commits > 3 else []), *feats(full), *{s[1] for s in c["steps"]}]


# --- all sequences of kinds ------------------------------------------------------------------------------------------
def kinds_items(tier):
    from lib import kinds

    length = 3 if tier == "thorough" else 2
    import itertools

    for n in range(2, length + 1):
        for ks in itertools.product(kinds.KINDS, repeat=n):
            for endian in "<>":
                for align in (False, True):
                    yield {"kinds": ks, "endian": endian, "align": align}
    if tier != "thorough":
        src = Source(seed="c18")
        names = list(kinds.KINDS)
        for _ in range(2500):
            yield {"kinds": tuple(src.pick(names) for _ in range(src.int(3, 6))), "endian": src.pick("<>"), "align": src.bool()}


def run_kinds(c):
    from lib import kinds

    p, full, v, raw, mask, dirt = kinds.case(c)
    d = full.sdef(TOP)
    n = len(d["f"])
    for compiled, cs, one in modes(p):
        for start in range(n):
            for how in ("each", "batch"):
                inc = start_type(p, cs, one, start, 1 + (start + n) % 2, compiled)
                if how == "batch":
                    add(inc, one.__fields__[start:], how)
                else:
                    for k in range(start, n):
                        add(inc, one.__fields__[k : k + 1], how)
                        pk = prefix_prog(p, k + 1)
                        env = Env(pk)
                        vk = {env.key(d, i): v[full.key(d, i)] for i in range(k + 1)}
                        r, m = env.dumps(TOP, vk)
                        check(eq_masked(inc(r).dumps(), r, m) and same(norm(env, TOP, inc(r)), vk), f"start={start} after {k + 1} fields compiled={compiled}: parsed", norm(env, TOP, inc(r)), "expected", vk)
                compare_types(full, cs, one, inc, [dirt, raw + b"\1\2", raw[:-1]], f"start={start} {how} compiled={compiled}")
    return ["nontrivial"]


# --- several structures at a time ------------------------------------------------------------------------------------
def gen_cross(src):
    from lib import kinds

    names = list(kinds.KINDS)
    parts = [{"kinds": tuple(src.pick(names) for _ in range(src.int(2, 6))), "start": src.int(0, 1), "how": src.int(1, 2), "compiled": src.bool(), "ops": []} for _ in range(src.int(2, 3))]
    left = [len(x["kinds"]) - x["start"] for x in parts]
    ops, stack = [], []
    while any(left) or stack:
        i = src.int(0, len(parts) - 1)
        k = src.weighted([(6, "add"), (2, "open"), (2 if stack else 0, "close"), (1 if stack else 0, "raise"), (1, "commit"), (1, "use")])
        if k == "add":
            if not left[i]:
                k = "close" if stack else None
            else:
                left[i] -= 1
                ops.append((k, i))
                continue
        if k == "open":
            # stop opening at some point
            if len(stack) < 4 and len(ops) < 60:
                stack.append(i)
                ops.append((k, i))
        elif k in ("close", "raise"):
            ops.append((k, stack.pop()))
        elif k and len(ops) < 60:
            ops.append((k, i))
    return {"parts": parts, "ops": ops, "endian": src.pick("<>"), "align": src.bool(), "shared": src.bool()}


def run_cross(c):
    """Updates of several structures interleaved: each is complete whenever no update of its own is open"""
    from lib import kinds

    from lib.render import prog_text as text

    parts, css = [], {}
    for i, q in enumerate(c["parts"]):
        p, full, v, raw, mask, dirt = kinds.case({**q, "endian": c["endian"], "align": c["align"]})
        key = 0 if c["shared"] else i
        if key not in css:
            css[key] = cstruct(endian=c["endian"], pointer=p["ptr"])
            css[key].load(text({**p, "defs": p["defs"][:-1]}), align=c["align"])
        cs = css[key]
        d = p["defs"][-1]
        cs.load(f"struct One{i} {body(d)};", compiled=q["compiled"], align=c["align"])
        one = cs.resolve(f"One{i}")
        parts.append({"p": p, "full": full, "d": d, "v": v, "dirt": dirt, "raw": raw, "cs": cs, "one": one, "at": q["start"],
                      "T": start_type(p, cs, one, q["start"], q["how"], q["compiled"]), "depth": 0})  # fmt: skip

    def verify(what):
        for i, x in enumerate(parts):
            if x["depth"]:
                continue
            k, d = x["at"], x["d"]
            pk = prefix_prog(x["p"], k)
            env = Env(pk)
            v = {env.key(d, j): x["v"][x["full"].key(d, j)] for j in range(k)}
            raw, mask = env.dumps(TOP, v)
            check(len(x["T"].__fields__) == k, what, i, "has", len(x["T"].__fields__), "fields, expected", k)
            behaviour(env, x["cs"], x["T"], v, raw, mask, b"\xa5" * 3, f"{what}: structure {i} with {k} fields", k)

    stack, crossed = [], 0
    for n, (k, i) in enumerate(c["ops"]):
        x = parts[i]
        if k == "add":
            f = x["one"].__fields__[x["at"]]
            x["T"].add_field(f.name, f.type, bits=f.bits)
            x["at"] += 1
            crossed += any(y["depth"] for y in parts if y is not x)
        elif k == "open":
            cm = x["T"].start_update()
            cm.__enter__()
            stack.append(cm)
            x["depth"] += 1
        elif k == "close":
            stack.pop().__exit__(None, None, None)
            x["depth"] -= 1
        elif k == "raise":
            e = KeyError("stop")
            try:
                stack.pop().__exit__(KeyError, e, None)
            except KeyError:
                pass
            x["depth"] -= 1
        elif k == "commit":
            x["T"].commit()
        else:
            outcome(lambda: x["T"](x["dirt"]))  # noqa: B023
            outcome(lambda: x["T"]().dumps())  # noqa: B023
        verify(f"step {n} {k} {i}")
    for i, x in enumerate(parts):
        compare_types(x["full"], x["cs"], x["one"], x["T"], [x["dirt"], x["raw"][:-1]], f"structure {i} compiled={c['parts'][i]['compiled']}")
    return ["nontrivial" if crossed else "apart"]


# --- self reference --------------------------------------------------------------------------------------------------
def gen_self(src):
    union = src.bool(1, 4)
    p, env, v, raw, mask = prog_value(src, Opt(ptrs=True, eof=False, huge=True, unions=not union, anon=True))
    d = p["defs"][-1]
    d.pop("style", None)
    if union:
        d["f"] = [f for f in d["f"] if not f.get("b") and f["n"] and env.size(f["t"]) is not None] or [{"n": "a", "t": ("s", "uint8"), "b": None}]
    # pointers to itself
    used = {n for n, _, _ in flat(env, d)}
    me = ("ptr", ("st", "T"))
    for i in range(src.int(1, 3)):
        t = src.pick([me, me, ("ptr", me), ("arr", me, ("n", 2))])
        if src.bool(1, 4) and not union:
            t = ("inl", {"k": "struct", "n": None, "f": [{"n": "x", "t": ("s", "uint8"), "b": None}, {"n": "y", "t": t, "b": None}]})
        d["f"].insert(src.int(0, len(d["f"])), {"n": f"self_{i}", "t": t, "b": None})
    if union:
        d["k"] = "union"
    env = Env(p)
    try:
        v = gen_value(src, env, TOP)
    except Reject:
        raise Discard from None
    return {"p": p, "v": v, "form": src.int(0, 3), "data": src.bytes(4)}


def flat(env, d):
    from lib.sut import flat_fields

    return flat_fields(env, d)


def retype(t, old, new):
    """Replace pointers to the structure"""
    if t == ("ptr", old):
        return ("ptr", new)
    if t[0] == "ptr":
        return ("ptr", retype(t[1], old, new))
    if t[0] == "arr":
        return ("arr", retype(t[1], old, new), *t[2:])
    if t[0] == "inl":
        return ("inl", {**t[1], "f": [{**f, "t": retype(f["t"], old, new)} for f in t[1]["f"]]})
    return t


def run_self(c):
    p = c["p"]
    env = Env(p)
    v = c["v"]
    d = p["defs"][-1]
    if d["k"] == "union" and has_nan(v):
        raise Discard
    raw, mask = env.dumps(TOP, v)
    rest = {**p, "defs": p["defs"][:-1]}
    other = {**d, "f": [{**f, "t": retype(f["t"], ("st", "T"), ("s", "uint8"))} for f in d["f"]]}
    texts = [
        f"{d['k']} T {body(d)};",
        f"{d['k']} T {body(d)} Alias;",
        f"{d['k']} T {body(d)} Alias, Alias2;",
        f"{d['k']} T " + body(d).replace("T *", f"{d['k']} T *") + ";",
    ]
    for compiled in (True, False):
        cs = cstruct(endian=p["endian"], pointer=p["ptr"])
        cs.load(prog_text(rest), compiled=compiled, align=p["align"])
        cs.load(texts[c["form"]], compiled=compiled, align=p["align"])
        cs.load(f"{d['k']} Other {body(other)};", compiled=compiled, align=p["align"])
        T, O = cs.T, cs.Other
        what = f"self reference form {c['form']} compiled={compiled}"
        if c["form"] in (1, 2):
            check(cs.Alias is T, what, "alias is another type")
        check([T.size, T.alignment, T.dynamic] == [O.size, O.alignment, O.dynamic], what, "layout", T.size, T.alignment, "other", O.size, O.alignment)
        check([(f.name, f.bits, f.offset, f.alignment) for f in T.__fields__] == [(f.name, f.bits, f.offset, f.alignment) for f in O.__fields__], what, "fields", T.__fields__)
        check(compiled_reader(T) == compiled_reader(O), what, "compiled", compiled_reader(T), "other", compiled_reader(O))
        check(list(T.fields) == list(O.fields), what, "names", list(T.fields))
        behaviour(env, cs, T, v, raw, mask, b"\xa5" * 3, what, len(raw)) if d["k"] == "struct" else None
        if d["k"] == "union":
            o = T(raw)
            check(same(norm(env, TOP, o), v) and eq_masked(o.dumps(), raw, mask), what, "union", norm(env, TOP, o), v)
        # the pointers lead to this type
        for f in T.__fields__:
            t = f.type
            if f.name and f.name.startswith("self_"):
                if hasattr(t, "fields"):
                    t = t.fields["y"].type
                while t is not T:
                    check(hasattr(t, "type"), what, f.name, "does not lead to T but to", t)
                    t = t.type
        if d["k"] == "struct" and T.size is not None and not env.align:
            # a chain
            w = env.size(("ptr", ("st", "T")))
            direct = [f["n"] for f in d["f"] if f["t"] == ("ptr", ("st", "T"))]
            if direct and (w > 1 or 3 * len(raw) < 200):
                name = direct[-1]
                img = b"\0"
                for i in range(3):
                    img += env.dumps(TOP, {**v, name: 1 + (i + 1) * len(raw) if i < 2 else 0})[0]
                fh = io.BytesIO(img)
                fh.seek(1)
                o = T(fh)
                for i in range(3):
                    check(type(o) is T, what, "chain has", type(o))
                    check(same(norm(env, TOP, o), {**v, name: 1 + (i + 1) * len(raw) if i < 2 else 0}), what, "chain element", i, "is", o)
                    if i < 2:
                        o = getattr(o, name).dereference()
    return ["nontrivial", d["k"], f"form{c['form']}", *feats(env)]


# --- given offsets ---------------------------------------------------------------------------------------------------
OT = ["uint8", "uint16", "uint32", "int24", "uint64", "char", "wchar", "float", "uint128"]
OSIZE = {"uint8": 1, "uint16": 2, "uint32": 4, "int24": 3, "uint64": 8, "char": 1, "wchar": 2, "float": 4, "uint128": 16}
OALIGN = {**OSIZE, "int24": 4}


def gen_off(src):
    fields = []
    for i in range(src.int(2, 7)):
        t = src.pick(OT)
        n = src.weighted([(4, None), (1, 2), (1, 3)])
        fields.append((f"f{i}", t, n, src.weighted([(2, None), (1, 0), (1, 1), (1, 5)])))
    return {"fields": fields, "align": src.bool(), "endian": src.pick("<>"), "compiled": src.bool(), "start": src.int(0, len(fields)), "batch": [src.bool(1, 3) for _ in fields], "seed": src.int(0, 1 << 30)}


def run_off(c):
    cs = cstruct(endian=c["endian"])
    end, fs, align = 0, [], 1
    for name, t, n, gap in c["fields"]:
        a = OALIGN[t]
        align = max(align, a)
        off = None
        if gap is not None:
            off = end + gap
            if c["align"]:
                off = -(-off // a) * a
        pos = off if off is not None else (-(-end // a) * a if c["align"] else end)
        fs.append((name, t, n, off, pos))
        end = pos + OSIZE[t] * (1 if n is None else n)
    size = -(-end // align) * align if c["align"] else end

    def typ(t, n):
        x = cs.resolve(t)
        return x if n is None else x[n]

    def build(k):
        T = cs._make_struct("One", [Field(nm, typ(t, n), offset=off) for nm, t, n, off, _ in fs[:k]], align=c["align"])
        return compiler.compile(T) if c["compiled"] else T

    one = build(len(fs))
    inc = build(c["start"])
    i = c["start"]
    while i < len(fs):
        if c["batch"][i]:
            with inc.start_update():
                for nm, t, n, off, _ in fs[i : i + 2]:
                    inc.add_field(nm, typ(t, n), offset=off)
            i += 2
        else:
            nm, t, n, off, _ = fs[i]
            inc.add_field(nm, typ(t, n), offset=off)
            i += 1
    src = Source(seed=c["seed"])
    data = bytearray(src.bytes(size))
    for nm, t, n, off, pos in fs:
        if t == "wchar":
            for j in range(1 if n is None else n):
                data[pos + 2 * j : pos + 2 * j + 2] = b"\x20\x21"
        if t == "float":
            data[pos : pos + 4 * (n or 1)] = b"\x40\x41\x42\x43" * (n or 1)
    data = bytes(data)
    zero = bytearray(size)
    for nm, t, n, off, pos in fs:
        k = OSIZE[t] * (1 if n is None else n)
        zero[pos : pos + k] = data[pos : pos + k]
    for what, T in (("one-shot", one), ("incremental", inc)):
        check([f.offset for f in T.__fields__] == [x[4] for x in fs], what, "offsets", [f.offset for f in T.__fields__], "expected", [x[4] for x in fs])
        check(T.size == size and T.alignment == align, what, "size", T.size, T.alignment, "expected", size, align)
        fh = io.BytesIO(b"\1" * 16 + data + b"\2\2")
        fh.seek(16)
        o = T(fh)
        check(fh.tell() == 16 + size, what, "consumed", fh.tell() - 16, "expected", size)
        for nm, t, n, off, pos in fs:
            k = OSIZE[t] * (1 if n is None else n)
            exp = typ(t, n)(data[pos : pos + k])
            check(getattr(o, nm) == exp, what, nm, "is", getattr(o, nm), "expected", exp)
        check(o.dumps() == bytes(zero), what, "dumps", o.dumps().hex(), "expected", bytes(zero).hex())
        expect(lambda T=T: T(data[: end - 1]), EOFError)
    check(compiled_reader(one) == compiled_reader(inc), "compiled", compiled_reader(inc), compiled_reader(one))
    return ["nontrivial"] if any(x[3] is not None for x in fs) else []


def subs():
    return [
        Sub("kinds", run_kinds, items=kinds_items),
        Sub("inc", run_inc, gen_inc, quick=4000, thorough=300000, show=show_case),
        Sub("cross", run_cross, gen_cross, quick=2000, thorough=150000),
        Sub("self", run_self, gen_self, quick=3000, thorough=200000, show=show_case),
        Sub("offsets", run_off, gen_off, quick=3000, thorough=100000),
    ]
