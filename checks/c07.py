"""C07: array length semantics."""

import io
import itertools

from dissect.cstruct import cstruct
from dissect.cstruct.types.base import BaseArray

from lib.common import *
from lib.gen import INTS, Values, may_be_empty
from lib.harness import Discard, Sub
from lib.model import ALIASES, PREC, SCALARS, canon, ev, expr_ids, expr_text
from lib.render import base_and_decl, prog_text
from lib.src import Source, int_value

RULE = (
    "Enumerated: every element type x every length form x count x byte order x alignment; every sequence of a zero/non-zero "
    "alphabet for null-terminated arrays; every trailing-byte count for to-end arrays. Generated: expression counts, "
    "multi-dimensional and nested arrays, wrong element counts on dumping. Non-trivial: at least one element."
)
ASSUMPTIONS = [
    "lib/model.py is the oracle for contents and consumption",
    "where the stream is left after a trailing partial element of a to-end-of-stream array is not specified",
    "null-terminated arrays of floats, pointers and unions are not defined by the property",
]

S = {"k": "struct", "n": "S", "f": [{"n": "p", "t": ("s", "uint8"), "b": None}, {"n": "q", "t": ("s", "uint16"), "b": None}]}
SB = {"k": "struct", "n": "SB", "f": [{"n": "p", "t": ("s", "uint8"), "b": 3}, {"n": "q", "t": ("s", "uint8"), "b": 5}]}
SD = {"k": "struct", "n": "SD", "f": [{"n": "p", "t": ("s", "uint8"), "b": None}, {"n": "q", "t": ("arr", ("s", "char"), ("z",)), "b": None}]}
SN = {"k": "struct", "n": "SN", "f": [{"n": "s", "t": ("st", "S"), "b": None}, {"n": "l", "t": ("s", "uleb128"), "b": None}]}
SA = {"k": "struct", "n": "SA", "f": [{"n": "p", "t": ("s", "uint8"), "b": None}, {"n": "q", "t": ("arr", ("s", "uint16"), ("n", 2)), "b": None}]}
U = {"k": "union", "n": "U", "f": [{"n": "p", "t": ("s", "uint32"), "b": None}, {"n": "q", "t": ("arr", ("s", "char"), ("n", 3)), "b": None}]}
DEFS = [
    {"k": "enum", "n": "E8", "u": "uint8", "m": [("A", None), ("B", None), ("C", ("num", 200, "200"))]},
    {"k": "enum", "n": "E16", "u": "uint16", "m": [("A", ("num", 1, "1")), ("B", None)]},
    {"k": "enum", "n": "E24", "u": "uint24", "m": [("A", None), ("B", None)]},
    {"k": "flag", "n": "F32", "u": "uint32", "m": [("A", None), ("B", None)]},
    {"k": "enum", "n": "E48", "u": "int48", "m": [("A", None), ("B", None)]},
    S, SB, SD, SN, SA, U,
]  # fmt: skip
ELEMS = {
    **{n: ("s", n) for n in SCALARS if n != "void"},
    "E8": ("enum", "E8"), "E16": ("enum", "E16"), "E24": ("enum", "E24"), "F32": ("flag", "F32"), "E48": ("enum", "E48"),
    "ptr": ("ptr", ("s", "uint32")), "ptrc": ("ptr", ("s", "char")), "S": ("st", "S"), "SB": ("st", "SB"), "SD": ("st", "SD"),
    "SN": ("st", "SN"), "SA": ("st", "SA"), "U": ("st", "U"), "u16x2": ("arr", ("s", "uint16"), ("n", 2)),
    "c3": ("arr", ("s", "char"), ("n", 3)), "w2": ("arr", ("s", "wchar"), ("n", 2)), "i24x2": ("arr", ("s", "int24"), ("n", 2)),
    "Sx2": ("arr", ("st", "S"), ("n", 2)), "cz": ("arr", ("s", "char"), ("z",)), "u8x0": ("arr", ("s", "uint8"), ("n", 0)),
}  # fmt: skip
NUM = lambda v: ("num", v, str(v))  # noqa: E731
NEG = lambda v: ("un", "-", NUM(v))  # noqa: E731
FORMS = {
    **{f"n{k}": (("n", k), k) for k in (0, 1, 2, 3, 7)},
    "n-1": (("n", -1, ("un", "-", NUM(1))), 0), "nK": (("n", 4, ("id", "K")), 4), "nK-9": (("n", -5, ("bin", "-", ("id", "K"), NUM(9))), 0),
    "nsz": (("n", 3, ("bin", "-", ("sizeof", "uint32"), NUM(1))), 3), "nhex": (("n", 3, ("num", 3, "0x3")), 3),
    **{f"e{k}": (("e", ("id", "n")), k) for k in (0, 1, 2, 5)},
    "e-": (("e", ("bin", "-", ("id", "n"), NUM(6))), 4), "e2": (("e", ("bin", "*", ("id", "n"), NUM(2))), 2),
    "eshadow": (("e", ("id", "m")), 3), "eK": (("e", ("bin", "+", ("id", "n"), ("id", "K"))), 1),
    "e()": (("e", ("bin", "*", ("par", ("bin", "+", ("id", "n"), NUM(1))), NUM(2))), 0),
    "esz": (("e", ("bin", "/", ("id", "n"), ("sizeof", "uint16"))), 5),
    "z0": (("z",), 0), "z1": (("z",), 1), "z3": (("z",), 3), "eof": (("eof",), 4), "eof0": (("eof",), 0),
}  # fmt: skip


def grid_items(tier):
    for el in ELEMS:
        for form in FORMS:
            for e in "<>":
                for align in (False, True):
                    for r in range(1 if tier == "quick" else 6):
                        yield {"el": el, "form": form, "e": e, "align": align, "r": r}


def grid_prog(c):
    ln, n = FORMS[c["form"]]
    t = ELEMS[c["el"]]
    f = [{"n": "n", "t": ("s", "uint8"), "b": None}, {"n": "m", "t": ("s", "uint16"), "b": 4},
         {"n": "x", "t": ("arr", t, ln), "b": None}]  # fmt: skip
    if ln[0] != "eof":
        f.append({"n": "tail", "t": ("s", "uint16"), "b": None})
    p = {"endian": c["e"], "align": c["align"], "ptr": "uint16", "consts": [("K", 4), ("m", 9)],
         "defs": [*DEFS, {"k": "struct", "n": "T", "f": f}]}  # fmt: skip
    return p, t, ln, n


def run_grid(c):
    p, t, ln, n = grid_prog(c)
    env = Env(p)
    if ln[0] == "z" and (t[0] in ("ptr", "arr") or c["el"] in ("U", "float", "double", "float16", "SD", "SA")):
        raise Discard
    if ln[0] == "eof" and (c["align"] or may_be_empty(env, t)):
        raise Discard
    src = Source(seed=repr(sorted(c.items())))
    vals = Values(src, env)
    v = {"n": n, "m": 3}
    if ln[0] == "e":
        # the field value that gives n elements; "m" hides the constant
        v["n"] = {"e-": n + 6, "eK": n - 4, "e2": 1, "eshadow": 77, "e()": 0, "esz": 2 * n + 1}.get(c["form"], n)
        if c["form"] == "eK":
            v["n"] = 1
        n = env.count(ln[1], v)
    if ln[0] == "e" and c["form"] == "e-" and c["r"] % 2 == 0 and c["e"] == "<":
        v["n"], n = 2, 0  # a negative count
    if env.is_char(t):
        v["x"] = bytes(src.int(1, 255) for _ in range(n))
    elif env.is_wchar(t):
        v["x"] = vals.wtext(n, True)
    else:
        v["x"] = [vals.value(t, {}, nonzero=ln[0] == "z") for _ in range(n)]
        if ln[0] == "z":
            v["x"] = [x if not env.zero(t, x) else {"p": 1, "q": 0} for x in v["x"]]
    if ln[0] != "eof":
        v["tail"] = src.int(0, 0xFFFF)
    raw, mask = env.dumps(TOP, v)
    data = dirty(src, raw, mask) + (b"" if ln[0] == "eof" else b"\xee\xee")
    for compiled, cs, T in modes(p):
        fh = io.BytesIO(data)
        o = T.read(fh)
        check(same(norm(env, TOP, o), v), "parsed", norm(env, TOP, o), "expected", v, "compiled", compiled)
        check(fh.tell() == len(raw), "consumed", fh.tell(), "expected", len(raw))
        want = len(v["x"]) if not env.is_wchar(t) else n
        check(env.is_wchar(t) or len(o.x) == n == want, "elements", len(o.x), "expected", n)
        check(o.dumps() == raw, "dumped", o.dumps(), "expected", raw)
        # the array type on its own
        A = T.fields["x"].type
        check(isinstance(A, type) and A.__name__, "no array type")
        if ln[0] != "e":
            el = T.fields["x"].type.type
            B = el[max(0, ln[1])] if ln[0] == "n" else el[None] if ln[0] == "z" else A
            sub, _ = env.dumps(("arr", t, ln), v["x"])
            if not env.align or env.size(t) is not None:
                fh = io.BytesIO(sub + (b"" if ln[0] == "eof" else b"\x01\x02"))
                y = B.read(fh)
                check(same(norm(env, ("arr", t, ln), y), v["x"]), "alone parsed", y, "expected", v["x"])
                check(fh.tell() == len(sub), "alone consumed", fh.tell(), "expected", len(sub))
                check(B.dumps(y) == sub, "alone dumped", B.dumps(y), "expected", sub)
    return [ln[0], "nontrivial"] if n else [ln[0]]


# --- null-terminated -------------------------------------------------------------------------------------------------
def zterm_items(tier):
    n = 4 if tier == "quick" else 6
    for name in [*INTS, "char", "wchar", "E8", "E16", "F32", "E24", "S", "SB", "uleb128", "ileb128"]:
        for k in range(0, n + 1):
            for seq in itertools.product(range(3), repeat=k):
                yield {"el": name, "seq": seq}


def run_zterm(c):
    """x[] stops at the first zero element; alphabet: zero, one, a value whose first byte is zero."""
    name = c["el"]
    t = ELEMS[name]
    for e in "<>":
        env = Env({"endian": e, "align": False, "ptr": "uint16", "consts": [], "defs": DEFS})
        if t[0] == "st":
            alpha = [{"p": 0, "q": 0}, {"p": 1, "q": 0}, {"p": 0, "q": 16}]
        elif name == "char":
            alpha = [b"\0", b"\x01", b"\xff"]
        elif name == "wchar":
            alpha = ["\0", "\x01", "\u0100"]
        else:
            size = env.size(t) or 2
            alpha = [0, 1, 1 << 8 * size - 2]
        seq = [alpha[i] for i in c["seq"]]
        k = next((i for i, x in enumerate(c["seq"]) if x == 0), None)
        raw = b"".join(env.dumps(t, x)[0] for x in seq)
        exp = env.join(t, seq[:k]) if k is not None else None
        used = len(b"".join(env.dumps(t, x)[0] for x in seq[: k + 1])) if k is not None else None
        for compiled in (True, False):
            cs = cstruct(endian=e, pointer="uint16")
            cs.load(prog_text({"consts": [], "defs": DEFS}) + f"struct T {{ {base_and_decl(t, 'x')[0][1]} x[]; }};", compiled=compiled)
            for T, get in ((cs.T, lambda o: o.x), (cs.T.fields["x"].type, lambda o: o), (cs.T.fields["x"].type.type[None], lambda o: o)):
                fh = io.BytesIO(raw)
                if exp is None:
                    expect(lambda: T.read(fh), EOFError)
                    continue
                o = T.read(fh)
                got = norm(env, ("arr", t, ("z",)), get(o))
                check(same(got, exp), "parsed", got, "expected", exp, "from", raw)
                check(fh.tell() == used, "consumed", fh.tell(), "expected", used)
                check(T.dumps(o) == raw[:used], "dumped", T.dumps(o), "expected", raw[:used])
    return ["nontrivial"] if k else []


# --- to end of stream ------------------------------------------------------------------------------------------------
def eof_items(tier):
    for name in ELEMS:
        for extra in range(0, 8 if tier == "quick" else 17):
            for n in (0, 1, 3):
                yield {"el": name, "extra": extra, "n": n, "e": "<>"[(extra + n) % 2]}


def run_eof(c):
    name = c["el"]
    t = ELEMS[name]
    env = Env({"endian": c["e"], "align": False, "ptr": "uint16", "consts": [], "defs": DEFS})
    size = env.size(t)
    if may_be_empty(env, t) or (size is not None and c["extra"] >= size) or (size is None and c["extra"] > 1):
        raise Discard
    src = Source(seed=repr(c))
    vals = Values(src, env)
    items = [vals.value(t, {}) if not env.is_wchar(t) else "x" for _ in range(c["n"])]
    raw = b"".join(env.dumps(t, x)[0] for x in items)
    rest = b"\x81" * c["extra"]
    exp = env.join(t, items)
    for compiled in (True, False):
        cs = cstruct(endian=c["e"], pointer="uint16")
        base, d = base_and_decl(("arr", t, ("eof",)), "x")
        cs.load(prog_text({"consts": [], "defs": DEFS}) + f"struct T {{ uint8 a; {base[1] if base[0] != 'inl' else ''} {d}; }};", compiled=compiled)
        for pre, T, get in ((b"\7", cs.T, lambda o: o.x), (b"", cs.T.fields["x"].type, lambda o: o)):
            for start in (0, 3):
                fh = io.BytesIO(b"zzz"[:start] + pre + raw + rest)
                fh.seek(start)
                o = T.read(fh)
                got = norm(env, ("arr", t, ("eof",)), get(o))
                check(same(got, exp), "parsed", got, "expected", exp, "from", raw, "+", rest, "compiled", compiled)
                check(T.dumps(o) == pre + raw, "dumped", T.dumps(o), "expected", pre + raw)
                if not rest:
                    check(fh.tell() == start + len(pre + raw), "consumed", fh.tell())
                else:
                    check(start + len(pre + raw) <= fh.tell() <= start + len(pre + raw + rest), "consumed", fh.tell())
    return ["nontrivial"] if c["n"] else []


# --- names in counts -------------------------------------------------------------------------------------------------
NAMES = ["EOF", "EOFX", "XEOF", "n_EOF", "EOF_", "_EOF", "eof", "Eof", "EO", "NULL", "None", "n", "N", "len", "x", "a2", "EOFEOF", "EOF1", "E", "O", "F", "sizeofx"]


def names_items(tier):
    for nm in NAMES:
        for where in ("none", "field", "const", "both", "outer", "later"):
            for form in ("{}", "{}+1", "({})", " {} ", "{}*1", "-{}", "0+{}"):
                for el in ("uint8", "uint16", "char", "S"):
                    yield {"name": nm, "where": where, "form": form, "el": el}


def run_names(c):
    """A name stands for a field before the array, else for a constant, else there is no such count; only the word EOF means the rest"""
    nm, where, form = c["name"], c["where"], c["form"]
    if where == "later" and nm == "EOF":
        raise Discard
    cs_defs = [f"#define {nm} 3"] if where in ("const", "both") else []
    arr = f"{c['el']} arr[{form.format(nm)}];"
    body = {"none": f"uint8 k; {arr} ", "const": f"uint8 k; {arr} ", "field": f"uint8 {nm}; {arr} ", "both": f"uint8 {nm}; {arr} ", "later": f"uint8 k; {arr} uint8 {nm}; ",
            "outer": f"uint8 {nm}; struct {{ uint8 q; {arr} }} in_; "}[where]  # fmt: skip
    eof_word = form.strip() == "{}" and nm == "EOF" and where in ("none", "outer")
    body += "" if eof_word else "uint8 tail_;"
    sz = {"uint8": 1, "uint16": 2, "char": 1, "S": 5}[c["el"]]
    for compiled in (True, False):
        for val in (2, 1, 0):
            cs = cstruct()
            txt = "\n".join([*cs_defs, "struct S { uint8 p; uint32 q; };", f"struct T {{ {body} }};"])
            cs.load(txt, compiled=compiled)
            data = bytes([val]) + (b"\7" if where == "outer" else b"") + bytes(range(1, 41))
            known = where in ("field", "const", "both")
            if where in ("none", "outer", "later"):
                if eof_word:
                    n = 40 // sz
                elif nm == "EOF" and where == "none" or where in ("none", "later") or where == "outer":
                    expect(lambda: cs.T(data), Exception)  # noqa: B023
                    if where == "none":
                        expect(lambda: cs.T.fields["arr"].type(data), Exception)  # noqa: B023
                    continue
            else:
                v = 3 if where == "const" else val
                n = max(0, {"{}": v, "{}+1": v + 1, "({})": v, " {} ": v, "{}*1": v, "-{}": -v, "0+{}": v}[form])
            fh = io.BytesIO(data)
            o = cs.T(fh)
            a = o.in_.arr if where == "outer" else o.arr
            check(len(a) == n, txt, "with", val, "compiled", compiled, "has", len(a), "elements, expected", n)
            if known:
                check(o.tail_ == n * sz + 1 and fh.tell() == 2 + n * sz, txt, "compiled", compiled, "consumed", fh.tell(), o)
            out = o.dumps()
            check(out == data[: len(out)] and len(out) == fh.tell(), txt, "dumps", out.hex(), "of", data.hex())
    return ["nontrivial", where]


# --- counts from expressions -----------------------------------------------------------------------------------------
def expr(src, names, depth):
    k = src.weighted([(3, "num"), (4, "id"), (3 if depth else 0, "bin"), (1 if depth else 0, "un"), (1 if depth else 0, "par"),
                      (1, "sizeof")])  # fmt: skip
    if k == "num":
        v = src.int(0, 9)
        return ("num", v, src.pick([str(v), hex(v), f"{v}u", f"{v}L", bin(v)]))
    if k == "id":
        return ("id", src.pick(names))
    if k == "un":
        return ("un", src.pick("-~"), expr(src, names, depth - 1))
    if k == "par":
        return ("par", expr(src, names, depth - 1))
    if k == "sizeof":
        return ("sizeof", src.pick(["uint8", "uint32", "wchar", "uint64"]))
    op = src.pick(list(PREC))
    right = ("num", src.int(1, 4), None) if op in ("/", "%", "<<", ">>") else expr(src, names, depth - 1)
    if right[2:] == (None,):
        right = ("num", right[1], str(right[1]))
    return ("bin", op, expr(src, names, depth - 1), right)


def nonneg_division(e, look):
    """/ and % only with non-negative operands (C's rounding of negative quotients is out of scope)."""
    if e[0] == "bin" and e[1] in "/%" and ev(e[2], look, lambda n: SCALARS[canon(n)][1]) < 0:
        return False
    return all(nonneg_division(x, look) for x in e[1:] if isinstance(x, tuple))


def gen_expr(src):
    fields = []
    names = []
    for i in range(src.int(1, 4)):
        n = src.pick(["a", "b", "c", "len", "K", "count", "n1"])
        if n in names:
            continue
        names.append(n)
        k = src.int(0, 4)
        t, bits = ("s", src.pick(["uint8", "int8", "uint16", "int32", "uleb128", "ileb128", "int24", "uint128"])), None
        if k == 3:
            t, bits = ("s", src.pick(["uint8", "uint16", "uint32"])), src.int(1, 4)
        if k == 4:
            t = ("enum", "E16")
        fields.append({"n": n, "t": t, "b": bits})
    vals = {f["n"]: src.weighted([(4, 1), (3, 2), (2, 0), (2, 3), (1, 5)]) & ((1 << f["b"]) - 1 if f["b"] else 255) for f in fields}
    for f in fields:
        if f["t"][1] in ("int8", "int32", "ileb128", "int24") and not f["b"] and src.bool(1, 4):
            vals[f["n"]] = -vals[f["n"]]
    arrays, scope = [], [*names, "K", "Z"]
    for i in range(src.int(1, 3)):
        e = expr(src, scope, src.int(0, 3))
        el = src.pick(["uint8", "uint16", "char", "int24", "S", "E8", "wchar", "u16x2", "ptr"])
        arrays.append((el, e))
    shape = src.int(0, 2)
    return {"fields": fields, "vals": vals, "arrays": arrays, "consts": [("K", src.int(0, 4)), ("Z", src.int(-2, 3))],
            "e": src.pick("<>"), "align": src.bool(1, 4), "noise": src.int(0, 1 << 60), "shape": shape}  # fmt: skip


def run_expr(c):
    consts = dict(c["consts"])
    vals = dict(c["vals"])

    def look(n):
        return vals[n] if n in vals else consts[n]

    fs = list(c["fields"])
    for i, (el, e) in enumerate(c["arrays"]):
        if not nonneg_division(e, look):
            raise Discard
        if max(0, ev(e, look, lambda n: SCALARS[canon(n)][1])) > 40:
            raise Discard
        fs.append({"n": f"x{i}", "t": ("arr", ELEMS[el], ("e", e)), "b": None})
    # the fields are reached directly, or the structure is a member of another one (same names outside)
    top = {"k": "struct", "n": "I" if c["shape"] else "T", "f": [*fs, {"n": "end", "t": ("s", "uint8"), "b": None}]}
    defs = [*DEFS, top]
    if c["shape"]:
        it = ("st", "I") if c["shape"] == 1 else ("arr", ("st", "I"), ("n", 2))
        outer = [{"n": "a", "t": ("s", "uint8"), "b": None}, {"n": "i", "t": it, "b": None}, {"n": "b", "t": ("s", "uint8"), "b": None}]
        defs.append({"k": "struct", "n": "T", "f": outer})
    p = {"endian": c["e"], "align": c["align"], "ptr": "uint32", "consts": c["consts"], "defs": defs}
    env = Env(p)
    src = Source(seed=c["noise"])
    gen = Values(src, env)
    v = dict(vals)
    counts = []
    for f in fs[len(c["fields"]) :]:
        v[f["n"]] = gen.array(f["t"], vals)
        counts.append(len(v[f["n"]]))
    v["end"] = 0x5A
    if c["shape"]:
        v = {"a": 7, "i": v if c["shape"] == 1 else [v, v], "b": 9}
    raw, mask = env.dumps(TOP, v)
    data = dirty(src, raw, mask) + b"\x99"
    for compiled, cs, T in modes(p):
        fh = io.BytesIO(data)
        o = T.read(fh)
        check(same(norm(env, TOP, o), v), "parsed", norm(env, TOP, o), "expected", v, "compiled", compiled)
        check(fh.tell() == len(raw), "consumed", fh.tell(), "expected", len(raw))
        check(o.dumps() == raw, "dumped", o.dumps(), "expected", raw)
    return ["nontrivial"] if any(counts) else ["zero"]


def show_expr(c):
    return repr({k: v for k, v in c.items() if k != "arrays"}) + "".join(f"\n  {el} x[{expr_text(e)}]" for el, e in c["arrays"])


# --- constants that change -------------------------------------------------------------------------------------------
LATE_EL = {"uint8": 1, "char": 1, "int24": 3, "uint16": 2, "wchar": 2, "S": 3}


def gen_late(src):
    arrays = []
    for _ in range(src.int(1, 3)):
        e = expr(src, src.pick([["L"], ["n", "K"], ["L", "K"], ["n", "L", "K"], ["L", "M"]]), src.int(0, 2))
        arrays.append((src.pick(list(LATE_EL)), e))
    ops = [src.weighted([(3, ("set", src.pick("KLM"), src.int(0, 4))), (1, ("def", src.pick("KLM"), src.int(0, 4))), (1, ("del", src.pick("LM"), 0)), (5, ("parse", src.int(0, 4), src.int(0, 1)))]) for _ in range(src.int(3, 12))]
    return {"arrays": arrays, "ops": ops, "e": src.pick("<>"), "nest": src.bool(1, 3), "tail": src.bytes(8)}


def run_late(c):
    """A count that can't be known when the structure is defined is evaluated on every parse, with the constants of that moment"""
    arrays = []
    for el, e in c["arrays"]:
        # a count of constants that are all known is evaluated with the definition
        ids = expr_ids(e)
        arrays.append((el, e if ids - {"K"} else ("bin", "+", e, ("bin", "*", ("id", "L"), ("num", 0, "0")))))
    fields = " ".join(f"{el} x{i}[{expr_text(e)}];" for i, (el, e) in enumerate(arrays))
    objs = []
    first = not any("n" in expr_ids(e) for _, e in arrays)  # there's nothing before it
    n, m = ("", "") if first else ("uint8 n; ", "uint8 m; ")
    for compiled in (True, False):
        cs = cstruct(endian=c["e"])
        inner = f"struct {{ {n}{fields} }} i;" if c["nest"] else f"{n}{fields}"
        cs.load(f"#define K 2\nstruct S {{ uint8 p; uint16 q; }}; struct T {{ {m}{inner} uint8 z; }};", compiled=compiled)
        objs.append(cs)
    consts = {"K": 2}
    seen = set()
    for step, (k, a, b) in enumerate(c["ops"]):
        if k == "set":
            consts[a] = b
            for cs in objs:
                cs.consts[a] = b
        elif k == "def":
            consts[a] = b
            for cs in objs:
                cs.load(f"#define {a} {b}\n")
        elif k == "del":
            if consts.pop(a, None) is not None:
                for cs in objs:
                    del cs.consts[a]
        else:
            look = {**consts, "n": a}
            counts = []
            for el, e in arrays:
                if expr_ids(e) - set(look):
                    counts = None
                    break
                if not nonneg_division(e, look.__getitem__):
                    raise Discard
                counts.append(max(0, ev(e, look.__getitem__, lambda n: SCALARS[canon(n)][1])))
                if counts[-1] > 100:
                    raise Discard
            body = b"".join(bytes(j % 7 + 1 for j in range(n * LATE_EL[el])) for n, (el, _) in zip(counts or [], arrays))
            head = b"" if first else bytes([9, a])
            data = head + body + b"\x7d" + c["tail"]
            for cs in objs:
                what = f"step {step}: n = {a} with {consts}"
                fh = io.BytesIO(data)
                try:
                    o = cs.T.read(fh)
                except Exception as e:
                    check(counts is None, what, "fails with", repr(e), "expected", counts)
                    continue
                check(counts is not None, what, "gives", o, "although a constant is unknown")
                t = o.i if c["nest"] else o
                got = [len(getattr(t, f"x{i}")) for i in range(len(arrays))]
                check(got == counts and o.z == 0x7D and fh.tell() == len(head + body) + 1, what, "gives", got, "elements, expected", counts, o)
                check(o.dumps() == data[: fh.tell()], what, "dumps", o.dumps())
            seen.add((tuple(sorted(consts.items()))))
    return ["nontrivial" if len(seen) > 1 else "one"]


def show_late(c):
    return "\n".join(f"{el} x[{expr_text(e)}]" for el, e in c["arrays"]) + f"\n{c['ops']} nest={c['nest']} {c['e']}"


# --- wrong element counts --------------------------------------------------------------------------------------------
def gen_mismatch(src):
    el = src.pick([k for k in ELEMS if k not in ("char", "wchar")])
    n = src.int(0, 4)
    m = src.pick([x for x in range(0, 7) if x != n])
    return {"el": el, "n": n, "m": m, "e": src.pick("<>"), "how": src.int(0, 5), "noise": src.int(0, 1 << 60), "align": src.bool(1, 3)}


def run_mismatch(c):
    t = ELEMS[c["el"]]
    n, m = c["n"], c["m"]
    at = ("arr", t, ("n", n))
    f = [{"n": "a", "t": ("s", "uint8"), "b": None}, {"n": "x", "t": at, "b": None}, {"n": "z", "t": ("s", "uint8"), "b": None}]
    if c["how"] == 4:
        f[1]["t"] = ("arr", at, ("n", 2))
    p = {"endian": c["e"], "align": c["align"], "ptr": "uint16", "consts": [], "defs": [*DEFS, {"k": "struct", "n": "T", "f": f}]}
    env = Env(p)
    src = Source(seed=c["noise"])
    vals = Values(src, env)

    def some(k, cls):
        return [unnorm(env, cls, t, vals.value(t, {})) for _ in range(k)]

    for compiled, cs, T in modes(p):
        A = T.fields["x"].type
        inner = A.type.type if c["how"] == 4 else A.type
        o = T()
        good = some(n, inner)
        if c["how"] == 4:
            o.x = [good, some(n, inner)]
        else:
            o.x = good
        ok = o.dumps()
        before = list(good)
        if c["how"] == 0:
            o.x = some(m, inner)
        elif c["how"] == 1:
            del o.x[:]
            o.x.extend(some(m, inner))
        elif c["how"] == 2:
            expect(lambda: A.dumps(some(m, inner)), Exception)
            o.x = tuple(some(m, inner)) if m > n else some(m, inner)
        elif c["how"] == 3:
            o = T(a=1, x=some(m, inner), z=2)
        elif c["how"] == 4:
            o.x = [some(n, inner), some(m, inner)] if m % 2 else [some(n, inner)] * (1 if m else 3)
        else:
            data = ok + bytes(8)
            o = T(ok)
            if m > n:
                o.x.append(inner.__default__())
            elif n:
                o.x.pop()
            else:
                o.x = some(1, inner)
        out = io.BytesIO()
        e = expect(lambda: T.write(out, o), Exception)
        check(type(e).__name__ == "ArraySizeError" or isinstance(e, ValueError), "refused with", repr(e))
        expect(lambda: o.dumps(), Exception)
        # and the right number is accepted again
        o.x = [good, some(n, inner)] if c["how"] == 4 else before
        o.a = o.z = 0
        o.dumps()
    return ["nontrivial", f"how{c['how']}"]


# --- long arrays -----------------------------------------------------------------------------------------------------
LONG = [127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 20000, 32767, 32768, 65535, 65536, 65537]
LONGER = [131072, 200001, 1 << 20]
LONG_EL = ["char", "wchar", "uint8", "int16", "uint24", "uint32", "uint128", "uleb128", "ileb128", "double", "E8", "E24", "F32", "ptr", "S", "SB", "SD", "u16x2", "c3", "cz"]


def long_items(tier):
    for el in LONG_EL:
        for n in LONG + (LONGER if tier == "thorough" else []):
            for i, form in enumerate("neEzo"):
                if n > 1025 and el not in ("char", "wchar") and tier == "quick" and (n + LONG_EL.index(el) + i) % 5:
                    continue
                if n > 20000 and el in ("S", "SB", "SD", "cz", "u16x2") and tier == "quick":
                    continue
                yield {"el": el, "n": n, "form": form, "e": "<>"[(i + n) % 2]}


def run_long(c):
    """Nothing is cut off or split at some number of elements."""
    el, n, form = c["el"], c["n"], c["form"]
    t = ELEMS[el]
    if form == "z" and (t[0] in ("ptr", "arr") or el in ("double", "SD")):
        raise Discard
    ln = {"n": ("n", n), "e": ("e", ("id", "n")), "E": ("e", ("bin", "-", ("bin", "*", ("id", "n"), NUM(2)), ("id", "n"))), "z": ("z",), "o": ("eof",)}[form]
    f = [{"n": "n", "t": ("s", "uint32"), "b": None}, {"n": "x", "t": ("arr", t, ln), "b": None}]
    if form != "o":
        f.append({"n": "tail", "t": ("s", "uint16"), "b": None})
    p = {"endian": c["e"], "align": False, "ptr": "uint16", "consts": [], "defs": [*DEFS, {"k": "struct", "n": "T", "f": f}]}
    env = Env(p)
    src = Source(seed=repr(c))
    if env.is_char(t):
        x = bytes(1 + (src.int(0, 255) + i) % 255 for i in range(0, 50)) * (n // 50 + 1)
        x = x[:n]
    elif env.is_wchar(t):
        x = ("Ab\u0100\u00ff\ud7ffz" * (n // 6 + 1))[:n]
    else:
        vals = Values(src, env)
        some = [vals.value(t, {}, nonzero=form == "z") for _ in range(23)]
        some = [y if form != "z" or not env.zero(t, y) else {"p": 1, "q": 0} for y in some]
        x = (some * (n // 23 + 1))[:n]
    v = {"n": n, "x": x}
    if form != "o":
        v["tail"] = 0xABCD
    raw, _ = env.dumps(TOP, v)
    for compiled, cs, T in modes(p):
        fh = io.BytesIO(b"#" + raw + (b"" if form == "o" else b"\xee\xee"))
        fh.seek(1)
        o = T.read(fh)
        check(len(o.x) == n, "elements", len(o.x), "expected", n, "compiled", compiled)
        ok = same(norm(env, TOP, o), v)
        check(ok, "parsed values differ", "compiled", compiled)
        check(fh.tell() == 1 + len(raw), "consumed", fh.tell() - 1, "expected", len(raw))
        check(o.dumps() == raw, "dumped", len(o.dumps()), "bytes, expected", len(raw))
        # one byte too few
        if form != "o":
            fh = io.BytesIO(raw[: -3 if form != "n" else -3])
            expect(lambda: T.read(fh), EOFError)
    return ["nontrivial", form]


# --- counts of every value -------------------------------------------------------------------------------------------
COUNT_T = ["int8", "int16", "int32", "int64", "int24", "int48", "int128", "ileb128", "E", "bits"]
COUNT_E = [("n", lambda n: n), ("-n", lambda n: -n), ("n - 1", lambda n: n - 1), ("n + n", lambda n: n + n), ("K", None)]


def counts_items(tier):
    for T in COUNT_T:
        for e in range(4):
            for el in ("uint8", "char", "S", "wchar", "int24"):
                w = {"int8": 128, "bits": 128}.get(T, 33000 if tier == "thorough" else 5200)
                for lo in range(-w, 0, 1300):
                    yield {"T": T, "e": e, "el": el, "lo": lo, "hi": min(lo + 1300, 0), "const": False}
                yield {"T": T, "e": e, "el": el, "lo": None, "hi": None, "const": False}
    for lo in range(-33000 if tier == "thorough" else -5200, 3, 100):
        yield {"T": None, "e": 0, "el": ["uint8", "char", "wchar", "S", "int24"][lo // 100 % 5], "lo": lo, "hi": lo + 100, "const": True}


def run_counts(c):
    """A count below zero gives no elements, whatever its value."""
    el = c["el"]
    zero = b"" if el == "char" else "" if el == "wchar" else []
    if c["const"]:
        cs = cstruct(endian="<")
        cs.load(prog_text({"consts": [], "defs": DEFS}))
        text = "".join(f"struct T{i} {{ {el} x[{n}]; uint8 tail; }};" for i, n in enumerate(range(c["lo"], min(c["hi"], 1))))
        for compiled in (True, False):
            cs = cstruct(endian="<")
            cs.load(prog_text({"consts": [], "defs": DEFS}) + text, compiled=compiled)
            for i, n in enumerate(range(c["lo"], min(c["hi"], 1))):
                T = getattr(cs, f"T{i}")
                fh = io.BytesIO(b"\x05\x06")
                o = T.read(fh)
                check(o.x == zero and o.tail == 5 and fh.tell() == 1 and len(T) == 1, f"x[{n}] gives", o, fh.tell(), T.size)
                check(o.dumps() == b"\x05", f"x[{n}] dumps", o.dumps())
                check(cs.resolve(el)[n].read(b"abcdefghij") == zero, f"{el}[{n}] gives", cs.resolve(el)[n].read(b"abcdefghij"))
        return ["nontrivial"]
    text, fn = COUNT_E[c["e"]]
    T = c["T"]
    decl = "int16 n : 8;" if T == "bits" else f"{T} n;"
    env = Env({"endian": "<", "align": False, "ptr": "uint16", "consts": [], "defs": DEFS})
    if c["lo"] is None:
        w = {"E": 32, "bits": 8, "ileb128": 80}.get(T) or 8 * env.size(("s", T))
        ns = {-(1 << k) + d for k in range(0, w) for d in (-1, 0, 1)} | {-10**k for k in range(18)}
        ns = [n for n in sorted(ns) if -(1 << w - 1) <= n < 1]
    else:
        ns = range(c["lo"], c["hi"])
    for compiled in (True, False):
        cs = cstruct(endian="<")
        cs.load(prog_text({"consts": [], "defs": DEFS}) + f"enum E : int32 {{ A, B }}; struct T {{ {decl} {el} x[{text}]; uint8 tail; }};", compiled=compiled)
        pre = {"E": cs.int32, "bits": cs.int16}.get(T) or cs.resolve(T)
        for n in ns:
            if T == "bits":
                head, n = (n % 256).to_bytes(2, "little"), n % 256
            else:
                head = pre.dumps(n)
            cnt = max(0, fn(n))
            if cnt > 1:
                continue
            body = {"uint8": b"\x09", "char": b"\x09", "S": b"\x01\x02\x03", "wchar": b"a\0", "int24": b"\x09\0\0"}[el] * cnt
            data = head + body + b"\x5a" + b"more" * 2
            fh = io.BytesIO(data)
            o = T_read(cs, fh)
            check(o.n == n and len(o.x) == cnt and (cnt or o.x == zero) and o.tail == 0x5A, "count", n, f"[{text}] gives", o)
            check(fh.tell() == len(head + body) + 1, "count", n, f"[{text}] consumed", fh.tell())
            check(o.dumps() == head + body + b"\x5a", "count", n, f"[{text}] dumps", o.dumps())
    return ["nontrivial"]


def T_read(cs, fh):
    return cs.T.read(fh)


# --- programs --------------------------------------------------------------------------------------------------------
def gen_prog(src):
    eof = src.bool(1, 4)
    p, env, v, raw, mask = prog_value(src, Opt(mixed=True, bits=src.bool(1, 3), eof=eof, floats=False), maxcount=6)
    return {"p": p, "v": v, "noise": src.int(0, 1 << 60)}


def run_prog(c):
    p, v = c["p"], c["v"]
    env = Env(p)
    raw, mask = env.dumps(TOP, v)
    labels = feats(env)
    data = dirty(Source(seed=c["noise"]), raw, mask) + (b"" if "arr-eof" in labels else b"\x13\x37")
    for compiled, cs, T in modes(p):
        fh = io.BytesIO(data)
        o = T.read(fh)
        check(same(norm(env, TOP, o), v), "parsed", norm(env, TOP, o), "expected", v, "compiled", compiled)
        check(fh.tell() == len(raw), "consumed", fh.tell(), "expected", len(raw))
        check(o.dumps() == raw, "dumped", o.dumps(), "expected", raw)
    return [*labels, "nontrivial"] if any(x.startswith("arr-") for x in labels) else labels


# --- every character -------------------------------------------------------------------------------------------------
def chars_items(tier):
    for e in "<>":
        yield {"el": "char", "e": e, "lo": 0, "hi": 256}
        for lo in range(0, 0x10000, 2048):
            if lo != 0xD800:
                yield {"el": "wchar", "e": e, "lo": lo, "hi": lo + 2048}


def run_chars(c):
    """No character but the null ends a string, and every one of them is kept, alone and among others."""
    wide = c["el"] == "wchar"
    order = "little" if c["e"] == "<" else "big"
    cs = cstruct(endian=c["e"])
    cls = cs.resolve(c["el"])
    cs.load(f"struct T {{ {c['el']} f[3]; {c['el']} z[]; {c['el']} last; }};")

    def text(units):
        return "".join(map(chr, units)) if wide else bytes(units)

    def enc(units):
        return b"".join(u.to_bytes(2 if wide else 1, order) for u in units)

    units = range(c["lo"], c["hi"])
    for name, A, us, end in (("fixed", cls[len(units)], list(units), []), ("null-terminated", cls[None], [u for u in units if u], [0])):
        fh = io.BytesIO(enc(us + end) + b"\x41" * 8)
        got = A.read(fh)
        check(got == text(us), name, "array of all from", c["lo"], "differs from position", next((i for i, (x, y) in enumerate(zip(got, text(us))) if x != y), len(got)))
        check(fh.tell() == len(enc(us + end)), name, "array consumed", fh.tell())
        check(A.dumps(got) == enc(us + end) == A.dumps(text(us)), name, "array dumps otherwise")
    T, Z = cs.T, cls[None]
    for u in units:
        if not u:
            continue
        for us in ([u], [0x41, u], [u, 0x42], [u, u], [0x41, u, 0x42]):
            data = enc([*us, 0])
            got = Z.read(io.BytesIO(data + b"\x41\x41"))
            check(got == text(us) and Z.dumps(got) == data, "null-terminated", us, "is", repr(got), Z.dumps(got).hex())
        data = enc([0x41, u, 0, u, 0x42, u, 0, u])
        o = T(data)
        check((o.f, o.z, o.last) == (text([0x41, u, 0]), text([u, 0x42, u]), text([u])) and o.dumps() == data, "structure", data.hex(), "is", o, o.dumps().hex())
    return ["nontrivial"]


def subs():
    return [
        Sub("chars", run_chars, items=chars_items, rule="every byte and every UTF-16 code unit that is a character, in fixed and null-terminated arrays"),
        Sub("grid", run_grid, items=grid_items, rule="element types x length forms x byte order x alignment"),
        Sub("zterm", run_zterm, items=zterm_items, rule="all sequences over {0, 1, high value} up to length 4 (6)"),
        Sub("eof", run_eof, items=eof_items, rule="element types x trailing bytes x counts"),
        Sub("names", run_names, items=names_items, rule="names that look like EOF x what they stand for x expressions"),
        Sub("expr", run_expr, gen_expr, quick=6000, thorough=300000, show=show_expr),
        Sub("long", run_long, items=long_items, rule="element types x forms x counts up to 65537 (a million)"),
        Sub("counts", run_counts, items=counts_items, rule="all negative counts down to -5200 (-33000) and powers of two, x types of the count"),
        Sub("late", run_late, gen_late, quick=2000, thorough=100000, show=show_late),
        Sub("mismatch", run_mismatch, gen_mismatch, quick=3000, thorough=60000),
        Sub("prog", run_prog, gen_prog, quick=4000, thorough=200000, show=show_case),
    ]


def folded_counts():
    """A count that names a field of an anonymous member doesn't see it: a constant of that name is used, or it is refused"""
    out = []
    for const in (False, True):
        for compiled in (False, True):
            text = ("#define n 3\n" if const else "") + "struct T { struct { uint8 n; }; char d[n]; };"
            try:
                ok = cstruct().load(text, compiled=compiled).T(b"\2abcde").d == b"ab"
            except Exception:  # noqa: BLE001
                ok = False
            if not ok:
                out.append(("a constant is used instead" if const else "refused") + (" (compiled)" if compiled else ""))
    return "a count that names a field of an anonymous member: " + ", ".join(out) if out else None


FINDINGS = {"anonymous-member-counts": folded_counts}
