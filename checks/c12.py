"""C12: enums and flags preserve every underlying value and number members like C."""

import io

from dissect.cstruct import cstruct

from checks import c10
from lib.common import *
from lib.gen import ALIAS_OF, INTS
from lib.harness import Discard, Sub
from lib.model import SCALARS, canon, leb_encode, order
from lib.src import Source, int_value

RULE = (
    "Enumerated: enum and flag over every integer type x byte order x compiled/interpreted, all values of one byte types (thorough: "
    "two bytes), boundary values of the others, in every position (call, stream, field, fixed, computed, null-terminated and "
    "to-end arrays, bit-field, union). Generated: member lists with implicit and explicit values, expressions over earlier members "
    "and constants, duplicates, anonymous enums, both parsers; arrays of up to 257 values with repeats; tuples of objects of several classes compared pairwise; whole "
    "programs. Non-trivial: values without a member or member lists mixing implicit and explicit values."
)
ASSUMPTIONS = [
    "oracle: int.to_bytes/from_bytes, a C numbering loop and pairwise equality by class and value",
    "flag members are non-negative; member names that collide with attributes of Python enum classes (size, type, mro, _x_) are "
    "refused by the loader and not generated",
]


# --- values ----------------------------------------------------------------------------------------------------------
def value_items(tier):
    for kind in ("enum", "flag"):
        for under in [*INTS, "uleb128", "ileb128", "unsigned long long", "BYTE", "__int16"]:
            for endian in "<>":
                for compiled in (True, False):
                    _, size, signed, _ = SCALARS[canon(under)]
                    if size == 1:
                        chunks = [list(range(-128, 128)) if signed else list(range(256))]
                    elif size == 2 and tier == "thorough":
                        vals = list(range(-32768, 32768)) if signed else list(range(65536))
                        chunks = [vals[i : i + 2048] for i in range(0, 65536, 2048)]
                    else:
                        w = 8 * size if size else 80
                        lo = -(1 << (w - 1)) if signed else 0
                        hi = (1 << (w - 1)) - 1 if signed else (1 << w) - 1
                        vals = {*range(max(lo, -20), 300), *(1 << k for k in range(w)), *((1 << k) - 1 for k in range(w)),
                                *(-(1 << k) for k in range(w)), *(hi - k for k in range(5)), *(lo + k for k in range(5))}  # fmt: skip
                        src = Source(seed=f"{kind}{under}")
                        vals |= {int_value(src, w, signed) for _ in range(100)}
                        chunks = [sorted(v for v in vals if lo <= v <= hi)]
                    for vals in chunks:
                        yield {"kind": kind, "under": under, "endian": endian, "compiled": compiled, "vals": vals}


MEMBERS = [("Z", 0), ("ONE", 1), ("TWO", 2), ("DUP", 2), ("FOUR", 4), ("SEVEN", 7), ("UNO", 1), ("BIG", 100)]


def run_values(c):
    kind, under, endian = c["kind"], c["under"], c["endian"]
    _, size, signed, _ = SCALARS[canon(under)]
    bo = order(endian)
    members = list(MEMBERS)
    if signed and kind == "enum":
        members += [("NEG", -1), ("NEG3", -3)]
    cs = cstruct(endian=endian)
    body = ", ".join(f"{n} = {v}" for n, v in members)
    other = f"{kind} F : {under} {{ {body} }};"
    fixed = size is not None
    text = f"{kind} E : {under} {{ {body} }};\n{other}\n"
    text += "struct T { uint8 n; E a; E b[2]; E c[n]; E z[]; E m[1][2]; E last; };\n"
    text += "struct R { E x[EOF]; };\n"
    if fixed:
        text += f"struct B {{ E lo : 3; E hi : {8 * size - 3}; uint8 t; }};\nunion U {{ E e; uint8 raw[{size}]; }};\n"
    cs.load(text, compiled=c["compiled"])
    E, F = cs.E, cs.F
    check(E.size == size and E.dynamic == (size is None), "size", E.size)
    names = {}
    for n, v in members:
        names.setdefault(v, []).append(n)
    labels = set()

    def enc(v):
        return v.to_bytes(size, bo, signed=signed) if fixed else leb_encode(v, signed)

    def good(o, v, what):
        check(type(o) is E, what, "is not an", E, "but", type(o), repr(o))
        check(o.value == v and int(o) == v and o == v and not (o != v) and v == o, what, "of", v, "is", repr(o), o.value, int(o))
        check(type(o.value) is int or isinstance(o.value, int), what, type(o.value))
        check(o != v + 1 and not (o == v + 1) and o != v - 1 and o != ~v, what, repr(o), "equals another integer")
        if kind == "enum" or v in names:
            check((o.name in names[v]) if v in names else o.name is None, what, "name of", v, "is", o.name)
        check(E.dumps(o) == enc(v), what, "dumps", v, "as", E.dumps(o).hex())

    prev, prevobj = 1, E(1)
    for v in c["vals"]:
        raw = enc(v)
        o = E(raw)
        good(o, v, "E(bytes)")
        fh = io.BytesIO(b"\xee" + raw + b"\xee")
        fh.seek(1)
        o2 = E(fh)
        good(o2, v, "E(stream)")
        check(fh.tell() == 1 + len(raw), "position after", v)
        o3 = E(v)
        good(o3, v, "E(int)")
        good(E.read(raw), v, "E.read")
        check(o == o2 and o == o3 and not (o != o2), "two parses of", v, "differ")
        check(hash(o) == hash(o2) == hash(o3), "hashes of two parses of", v, "differ")
        check(len({o, o2, o3}) == 1 and {o: 5}[o2] == 5 and o in [o2] and o2 in (o,), "set of two parses of", v)
        for n in names.get(v, ()):
            m = getattr(E, n)
            check(m == o and o == m and hash(m) == hash(o) and E[n] == o and m in {o}, "member", n, "differs from a parse of", v)
            check(not (getattr(F, n) == o) and getattr(F, n) != o and o != getattr(F, n), "member of another", kind, "equals", repr(o))
        f = F(raw)
        check(f != o and not (f == o) and o != f and not (o == f), "the same value of another", kind, "is equal", v)
        check(v == prev or (o != prevobj and prevobj != o), "values", v, prev, "are equal")
        # fields and arrays
        vs = [v, prev, v]
        z = [x for x in vs if x != 0]
        data = bytes([2]) + raw + enc(prev) + raw + raw + enc(prev) + b"".join(map(enc, z)) + enc(0) + raw + enc(prev) + raw
        t = cs.T(data)
        good(t.a, v, "field")
        for what, got, exp in (("fixed array", t.b, [prev, v]), ("computed array", t.c, [v, prev]), ("null-terminated array", t.z, z), ("array of arrays", t.m[0], [v, prev])):
            check(len(got) == len(exp), what, "has", got, "expected", exp)
            for g, x in zip(got, exp):
                good(g, x, what)
        good(t.last, v, "last field")
        check(t.dumps() == data, "dumps of a structure", t.dumps().hex(), "expected", data.hex())
        t.a = E(prev)
        t.last = f if False else E(prev)
        check(t.dumps()[1 : 1 + len(enc(prev))] == enc(prev), "assigned field")
        r = cs.R(raw * 3)
        check([int(x) for x in r.x] == [v] * 3 and all(type(x) is E for x in r.x) and r.dumps() == raw * 3, "to-end array", r)
        arr = E[2](raw + enc(prev))
        good(arr[0], v, "E[2]")
        check(type(arr).dumps(arr) == raw + enc(prev), "E[2] dumps")
        if fixed:
            u = v % (1 << (8 * size))
            lo, hi = (u & 7, u >> 3) if endian == "<" else (u >> (8 * size - 3), u & ((1 << (8 * size - 3)) - 1))
            b = cs.B(raw + b"\x55")
            good_bits(b.lo, lo, E)
            good_bits(b.hi, hi, E)
            check(b.dumps() == raw + b"\x55", "bit-field dumps", b.dumps().hex(), "expected", raw.hex())
            un = cs.U(raw)
            good(un.e, v, "union member")
            check(un.dumps() == raw, "union dumps")
            un.e = E(prev)
            check(un.dumps() == enc(prev) and un.raw == list(enc(prev)), "union assignment")
        if v not in names:
            labels.add("nontrivial")
        prev, prevobj = v, o
    # the member list is unaffected by all of this
    check([(n, m.value) for n, m in E.__members__.items()] == members, "members changed:", dict(E.__members__))
    for n, v in members:
        check(getattr(E, n).name == n and getattr(E, n).value == v, "member", n, "is", repr(getattr(E, n)))
    return sorted(labels)


def good_bits(o, v, E):
    check(type(o) is E and o.value == v and o == v and int(o) == v, "bit-field", v, "is", repr(o))


# --- numbering -------------------------------------------------------------------------------------------------------
POOL = ["A", "B", "C", "D", "E_", "RED", "Green", "blue", "_x", "x1", "a", "name", "value", "real", "None", "True", "deft", "_1", "u8", "int_", "enumA", "structB",
        "flagC", "AAA", "values", "L", "ul", "x", "o", "b1", "read", "self", "cls", "class", "def", "sizeof_", "EOF_", "__y", "K0", "K1"]  # fmt: skip
GAPS = ["", "", "", " ", "  ", "\t", "\n", " // c\n", "/* c */", "/* a,\n = b */", " "]


def gen_many(src):
    return gen_numbering(src, src.pick([20, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300]))


def gen_numbering(src, many=0):
    kind = src.pick(["enum", "flag"])
    legacy = src.bool(1, 4)
    under = src.pick(INTS)
    if src.bool(1, 4) and under in ALIAS_OF and not legacy:
        under = src.pick(ALIAS_OF[under])
    named = legacy or src.bool(4, 5)
    typed = src.bool(5, 6)
    _, size, signed, _ = SCALARS[canon(under)] if typed else SCALARS["uint32"]
    consts = {f"K{i}": src.int(0, 9) for i in range(src.int(0, 2))}
    pool = src.shuffle(POOL)
    members = []
    vals = {}
    nxt = 1 if kind == "flag" else 0
    lo = 0 if kind == "flag" or not signed else -(1 << (8 * size - 1))
    hi = (1 << (8 * size - signed)) - 1
    for i in range(many or src.int(1, 8)):
        name = f"M{i}" if many else pool[i]
        e = None
        form = src.weighted([(150 if many else 5, "none"), (2, "num"), (2, "neg"), (3, "expr"), (2, "ref"), (1, "wide")])
        if form == "num":
            e = c10.literal(src)
        elif form == "neg":
            n = src.int(1, 9)
            e = ("un", "-", ("num", n, str(n)))
        elif form == "expr":
            e = c10.tree(src, src.int(1, 3), [*vals, *consts])
        elif form == "ref" and vals:
            e = ("id", src.pick(list(vals)))
        elif form == "wide":
            v = int_value(src, 8 * size, bool(signed))
            e = ("num", v, str(v)) if v >= 0 else ("un", "-", ("num", -v, str(-v)))
        if e is not None:
            try:
                v = c10.value(e, lambda n: vals[n] if n in vals else consts[n], c10.sizes_of)
            except c10.Undefined:
                e = ("num", 3, "3")
                v = 3
            if not lo <= v <= hi:
                e = ("bin", "&", ("par", e), ("num", 63, "0x3f"))
                v &= 63
        else:
            v = nxt
        if not lo <= v <= hi:
            e, v = ("num", 0, "0"), 0
        members.append((name, e))
        vals[name] = v
        nxt = (1 << v.bit_length()) if kind == "flag" else v + 1
    return {"kind": kind, "legacy": legacy, "under": under if typed else None, "named": named, "consts": consts, "members": members, "vals": vals,
            "style": src.int(0, 2), "ws": src.int(0, 1 << 60), "endian": src.pick("<>"), "tail": src.int(0, 2), "array": src.bool()}  # fmt: skip


def numbering_text(c):
    ws = Source(seed=c["ws"])
    plain = c["style"] == 0 or c["legacy"]

    def gap():
        return (ws.pick(["", " ", "\t"]) if c["legacy"] else " ") if plain else ws.pick(GAPS)

    parts = []
    for name, e in c["members"]:
        s = gap() + name + gap()
        if e is not None:
            s += "=" + gap() + c10.text(e, 2 if c["style"] == 2 else 1, ws) + gap()
        parts.append(s)
    sep = "," if c["style"] else ",\n"
    out = sep.join(parts)
    if c["tail"] == 1:
        out += ","
    elif c["tail"] == 2:
        out += ",\n"
    head = c["kind"] + " " + ("E" if c["named"] else "") + (f" : {c['under']} " if c["under"] else " ")
    defs = "".join(f"#define {k} {v}\n" for k, v in c["consts"].items())
    return f"{defs}{head}{{{out}}};\n"


def run_numbering(c):
    txt = numbering_text(c)
    cs = cstruct(endian=c["endian"])
    if c["legacy"]:
        cs.load(txt, deftype=cs.DEF_LEGACY)
    else:
        cs.load(txt)
    under = canon(c["under"] or "uint32")
    _, size, signed, _ = SCALARS[under]
    if c["named"]:
        E = cs.E
        got = [(n, m.value) for n, m in E.__members__.items()]
        check(got == list(c["vals"].items()), "members", got, "expected", list(c["vals"].items()), "in", repr(txt))
        check(E.size == size and len(E) == size, "size of the enum", E.size, "expected", size)
        check(E.type is cs.resolve(under), "underlying type", E.type)
        check(E.__name__ == "E", E.__name__)
        get = lambda n: E[n]  # noqa: E731
    else:
        for n, v in c["vals"].items():
            check(cs.consts[n] == v and int(cs.consts[n]) == v, "constant", n, cs.consts[n], "expected", v, "in", repr(txt))
        E = type(cs.consts[c["members"][0][0]])
        get = lambda n: cs.consts[n]  # noqa: E731
    for n, v in c["vals"].items():
        m = get(n)
        raw = v.to_bytes(size, order(c["endian"]), signed=signed)
        o = E(raw)
        check(m == v and o == m and m == o and hash(m) == hash(o) and m.value == v and m.name == n, "member", n, repr(m), "expected", v)
        check(E.dumps(m) == raw and E.dumps(o) == raw, "dumps of", n, E.dumps(m).hex(), "expected", raw.hex())
        for n2, v2 in c["vals"].items():
            check((get(n2) == m) == (v == v2) and (get(n2) != m) == (v != v2), "comparison of", n, n2)
    if not c["legacy"]:
        # members in later definitions
        name = next((n for n, v in c["vals"].items() if 0 <= v <= 40 and n.isidentifier() and n not in ("def", "class", "None", "True")), None)
        if name and not c["named"]:
            v = c["vals"][name]
            cs.load(f"struct S {{ uint8 z_[{name}]; uint8 t_; }};")
            check(cs.S.size == v + 1, "array of", name, "entries has size", cs.S.size)
        if c["named"]:
            cs.load("struct S { uint8 p_; E e_; E f_[2]; };")
            for n, v in c["vals"].items():
                raw = v.to_bytes(size, order(c["endian"]), signed=signed)
                s = cs.S(b"\1" + raw * 3)
                check(s.e_ == get(n) and s.f_ == [get(n), get(n)] and s.dumps() == b"\1" + raw * 3, "field", n)
    mixed = {e is None for _, e in c["members"]}
    return ["nontrivial"] * (len(mixed) == 2) + [c["kind"], "legacy" if c["legacy"] else "token", "named" if c["named"] else "anonymous"]


# --- equality --------------------------------------------------------------------------------------------------------
def gen_eq(src):
    classes = []
    for i in range(src.int(2, 5)):
        n = src.int(1, 5)
        names = src.shuffle(["A", "B", "C", "D", "E"])[:n]
        classes.append((src.pick(["enum", "flag"]), src.pick(["uint8", "int8", "uint16", "uint32", "int64", "uint24"]), [(x, src.int(0, 7)) for x in names], src.int(0, 1)))
    objs = []
    for _ in range(src.int(2, 14)):
        objs.append((src.int(0, len(classes) - 1), src.weighted([(3, "parse"), (2, "member"), (2, "call"), (1, "field")]), src.int(0, 12)))
    return {"classes": classes, "objs": objs, "signed": src.bool()}


def run_eq(c):
    css = [cstruct(), cstruct(endian=">")]
    cls = []
    for i, (kind, under, members, k) in enumerate(c["classes"]):
        # the same name in the other cstruct object now and then
        name = f"X{i % 3}" if css[k].typedefs.get(f"X{i % 3}") is None else f"Y{i}"
        css[k].load(f"{kind} {name} : {under} {{ {', '.join(f'{n} = {v}' for n, v in members)} }}; struct S{i} {{ {name} f; }};")
        cls.append((css[k].resolve(name), css[k].resolve(f"S{i}"), dict(members), SCALARS[under], order("<" if k == 0 else ">")))
    objs = []
    for i, how, v in c["objs"]:
        E, S, members, (_, size, signed, _), bo = cls[i]
        if how == "member":
            n = list(members)[v % len(members)]
            v = members[n]
            o = getattr(E, n)
        else:
            if c["signed"] and signed and v % 2:
                v = -v
            raw = v.to_bytes(size, bo, signed=signed)
            o = E(raw) if how == "parse" else E(v) if how == "call" else S(raw).f
        objs.append((E, v, o))
    for E, v, a in objs:
        check(a == v and v == a and not (a != v), repr(a), "does not equal", v)
        for F, w, b in objs:
            exp = E is F and v == w
            check((a == b) is exp and (a != b) is not exp, repr(a), "==", repr(b), "is", a == b, "expected", exp, E, F)
            check((a in [b]) is exp and (a in {b}) is exp and (a in {b: 1}) is exp, repr(a), "in a collection with", repr(b), "expected", exp)
            if exp:
                check(hash(a) == hash(b), "hashes of equal", repr(a), repr(b), "differ")
        check(E.dumps(a) == v.to_bytes(E.size, order(E.cs.endian), signed=SCALARS[E.type.__name__][2]), "dumps of", repr(a))
    n = len({(id(E), v) for E, v, _ in objs})
    check(len({o for _, _, o in objs}) == n, "set of objects")
    same_val = any(E is not F and v == w for E, v, _ in objs for F, w, _ in objs)
    return ["nontrivial"] if same_val else []


# --- arrays ----------------------------------------------------------------------------------------------------------
def gen_arrays(src):
    kind = src.pick(["enum", "flag"])
    under = src.pick([*INTS, "uleb128", "ileb128"])
    _, size, signed, _ = SCALARS[under]
    w = 8 * size if size else 40
    members = [(f"M{i}", src.int(0, 9)) for i in range(src.int(1, 6))]
    pool = [int_value(src, w, signed) for _ in range(src.int(1, 5))] + [v for _, v in members]
    n = src.pick([0, 1, 2, 3, 7, 8, 9, 10, 16, 17, 32, 33, 64, 100, 128, 255, 256, 257])
    vals = [src.pick(pool) for _ in range(n)]
    return {"kind": kind, "under": under, "endian": src.pick("<>"), "members": members, "vals": vals, "compiled": src.bool(), "count": src.pick([1, 2, 4])}


def run_arrays(c):
    """Every value of every kind of array of enums, in order, repeated ones too."""
    _, size, signed, _ = SCALARS[c["under"]]
    vals, n = c["vals"], len(c["vals"])
    body = ", ".join(f"{n} = {v}" for n, v in c["members"])
    cs = cstruct(endian=c["endian"])
    cs.load(f"{c['kind']} E : {c['under']} {{ {body} }}; struct T {{ uint16 n; E z[]; uint8 k; E f[{n}]; E c[n]; E t[EOF]; }};", compiled=c["compiled"])
    E = cs.E

    def enc(v):
        return v.to_bytes(size, order(c["endian"]), signed=signed) if size else leb_encode(v, signed)

    def good(got, exp, what):
        check([x.value for x in got] == exp and list(got) == exp, what, "is", got, "expected", exp)
        check(all(type(x) is E for x in got), what, "has other types", got)
        check([hash(x) for x in got] == [hash(E(v)) for v in exp] and set(got) == {E(v) for v in exp}, what, "hashes")

    raw = b"".join(map(enc, vals))
    nz = [v for v in vals if v]
    rawz = b"".join(map(enc, nz)) + enc(0)
    for what, A, data, exp in (("fixed array", E[n], raw, vals), ("null-terminated array", E[None], rawz, nz), ("fixed array of a prefix", E[n // 2], b"".join(map(enc, vals[: n // 2])), vals[: n // 2])):
        fh = io.BytesIO(b"\x99" + data + b"\x11" * 5)
        fh.seek(1)
        got = A.read(fh)
        good(got, exp, what)
        check(fh.tell() == 1 + len(data), what, "consumed", fh.tell() - 1, "expected", len(data))
        check(A.dumps(got) == data, what, "dumps", A.dumps(got).hex(), "expected", data.hex())
        check(A.dumps([E(v) for v in exp]) == data and A.dumps(exp) == data, what, "made of members or integers dumps otherwise")
    k = c["count"]
    rows = n // k
    A = E[k][rows]
    data = b"".join(map(enc, vals[: k * rows]))
    got = A(data)
    check(len(got) == rows, "array of arrays", got)
    for i, row in enumerate(got):
        good(row, vals[i * k : i * k + k], "row")
    check(A.dumps(got) == data, "array of arrays dumps", A.dumps(got).hex(), "expected", data.hex())
    data = n.to_bytes(2, order(c["endian"])) + rawz + b"\x07" + raw * 3
    o = cs.T(data)
    for what, got, exp in (("z", o.z, nz), ("f", o.f, vals), ("c", o.c, vals), ("t", o.t, vals)):
        good(got, exp, what)
    check(o.k == 7 and o.dumps() == data, "structure dumps", o.dumps().hex(), "expected", data.hex())
    o.z, o.f, o.c, o.t = ([E(v) for v in x] for x in (nz, vals, vals, vals))
    check(o == cs.T(data) and o.dumps() == data, "assigned structure dumps", o.dumps().hex(), "expected", data.hex())
    return ["nontrivial"] * (n > 1) + ["repeated"] * (len(set(vals)) < n)


# --- whole programs --------------------------------------------------------------------------------------------------
def gen_prog(src):
    p, env, v, raw, mask = prog_value(src, Opt(mixed=True, floats=False, chars=src.bool(), wchars=False, lebs=src.bool(), ptrs=False))
    if not any(x[0] in ("enum", "flag") for x in env.walk(TOP)):
        raise Discard
    return {"p": p, "v": v, "raw": raw, "mask": mask}


def run_prog(c):
    env = Env(c["p"])
    for compiled, cs, T in modes(c["p"]):
        o, end = read_all(T, c["raw"] + b"\x77" * 3) if "arr-eof" not in features(env, TOP) else read_all(T, c["raw"])
        got = norm(env, TOP, o)
        check(same(got, c["v"]), "parsed", got, "expected", c["v"], "compiled", compiled)
        check(end == len(c["raw"]), "consumed", end, "of", len(c["raw"]))
        check(eq_masked(o.dumps(), c["raw"], c["mask"]), "dumps", o.dumps().hex(), "expected", c["raw"].hex())
        for d in c["p"]["defs"]:
            if d["k"] in ("enum", "flag"):
                m = {n: int(x) for n, x in cs.resolve(d["n"]).__members__.items()}
                check(list(m.items()) == list(env.enums[d["n"]].items()), "members of", d["n"], m, "expected", env.enums[d["n"]])
    return feats(env, ["nontrivial"])


def subs():
    return [
        Sub("values", run_values, items=value_items, rule="a value without a member", show=lambda c: {**c, "vals": f"{len(c['vals'])} values from {c['vals'][0]}"}),
        Sub("numbering", run_numbering, gen_numbering, quick=12000, thorough=600000, show=lambda c: f"{numbering_text(c)} -> {c['vals']}"),
        Sub("many", run_numbering, gen_many, quick=240, thorough=8000, show=lambda c: f"{numbering_text(c)} -> {c['vals']}"),
        Sub("eq", run_eq, gen_eq, quick=5000, thorough=200000),
        Sub("arrays", run_arrays, gen_arrays, quick=2500, thorough=150000),
        Sub("prog", run_prog, gen_prog, quick=4000, thorough=200000, show=show_case),
    ]
