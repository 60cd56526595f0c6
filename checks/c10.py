"""C10: expressions evaluate with C precedence and associativity, repeatably."""

import itertools

from dissect.cstruct import cstruct
from dissect.cstruct.expression import Expression

from lib.common import *
from lib.harness import Discard, Sub
from lib.model import ALIASES, SCALARS, canon
from lib.src import Source, int_value

RULE = (
    "Exhaustive: all pairs of binary operators x unary prefixes x parentheses, all triples of binary operators, all literal "
    "forms x suffixes for a range of values, sizeof of every type name. Generated: random expression trees with redundant "
    "parentheses, random whitespace, contexts hiding constants, repeated evaluation with other contexts and after failures, and "
    "the callers (#define, enum values, array lengths). Non-trivial: at least two operators."
)
ASSUMPTIONS = [
    "oracle: a recursive evaluator over the tree; the text is printed from the tree with C's minimal parentheses",
    "/ and % only with non-negative operands; shift counts 0..5000; no '--' (a C token of its own)",
]
LEVELS = [("|",), ("^",), ("&",), ("<<", ">>"), ("+", "-"), ("*", "/", "%")]
PRIO = {op: i for i, ops in enumerate(LEVELS) for op in ops}
OPS = list(PRIO)


class Undefined(Exception):
    """A division that C does not define (or not as the property says)."""


class Huge(Undefined):
    """Operands beyond what the check evaluates."""


def value(e, look, sizes, strict=True):
    k = e[0]
    if k == "num":
        return e[1]
    if k == "id":
        return look(e[1])
    if k == "sizeof":
        return sizes(e[1])
    if k == "par":
        return value(e[1], look, sizes, strict)
    if k == "un":
        x = value(e[2], look, sizes, strict)
        return -x if e[1] == "-" else -x - 1
    a, b = value(e[2], look, sizes, strict), value(e[3], look, sizes, strict)
    op = e[1]
    if op in "/%" and (b == 0 or strict and (a < 0 or b < 0)):
        raise Undefined
    if op in ("<<", ">>") and not (0 <= b <= 5000 and abs(a) < 1 << 6000):
        raise Huge
    if op == "*" and (abs(a) > 1 << 6000 or abs(b) > 1 << 6000):
        raise Huge
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        return a // b
    if op == "%":
        return a - a // b * b
    if op == "<<":
        return a * 2**b
    if op == ">>":
        return a // 2**b
    return {"&": int.__and__, "|": int.__or__, "^": int.__xor__}[op](a, b)


def tokens(e, prio=-1):
    """Token list with the parentheses C needs."""
    k = e[0]
    if k == "num":
        return [e[2]]
    if k == "id":
        return [e[1]]
    if k == "sizeof":
        return ["sizeof", "(", *e[1].split(), ")"]
    if k == "par":
        return ["(", *tokens(e[1]), ")"]
    if k == "un":
        return [e[1], *tokens(e[2], 10)]
    p = PRIO[e[1]]
    out = [*tokens(e[2], p - 1 if p > 0 else -1), e[1], *tokens(e[3], p)]
    # left operand of the same level needs none, right operand does
    return ["(", *out, ")"] if p <= prio else out


def join(toks, gap):
    """Text; gap(i) gives the whitespace between two tokens, which is only optional where C does not need it."""
    out = toks[0]
    for i, t in enumerate(toks[1:]):
        g = gap(i)
        prev = out[-1]
        if not g and ((prev.isalnum() or prev == "_") and (t[0].isalnum() or t[0] == "_") or prev == "-" and t[0] == "-"):
            g = " "
        if prev == "-" and t[0] == "-" and not g.strip(" \t\n") and not g:
            g = " "
        out += g + t
    return out


def text(e, style, src=None):
    if style == 0:
        return join(tokens(e), lambda i: "")
    if style == 1:
        return join(tokens(e), lambda i: " ")
    return join(tokens(e), lambda i: src.pick(["", " ", "  ", "\t", " \t "]))


def num(v):
    return ("num", v, str(v))


def sizes_of(n):
    return SCALARS[canon(n)][1]


def evaluate(cs, txt, ctx=None):
    return Expression(cs, txt).evaluate(ctx)


def check_expr(cs, e, styles, ctx=None, consts=None):
    ctx = ctx or {}
    try:
        exp = value(e, lambda n: ctx[n] if n in ctx else consts[n], sizes_of)
    except Undefined:
        return False
    for s in styles:
        txt = text(e, s)
        x = Expression(cs, txt)
        got = x.evaluate(ctx)
        check(got == exp and isinstance(got, int), repr(txt), "is", got, "expected", exp)
        check(x.evaluate(ctx) == exp, repr(txt), "again is", x.evaluate(ctx), "expected", exp)
    return True


# --- exhaustive ------------------------------------------------------------------------------------------------------
VALS = [(7, 3, 2), (1, 0, 5), (12, 5, 3), (255, 8, 4), (6, 6, 1)]
UN = [(), ("-",), ("~",), ("-", "~"), ("~", "-"), ("~", "~")]


def unary(ops, e):
    for op in reversed(ops):
        e = ("un", op, e)
    return e


def pair_items(tier):
    for a, b in itertools.product(OPS, repeat=2):
        yield {"a": a, "b": b}


def run_pair(c):
    cs = cstruct()
    n = 0
    for us in itertools.product(UN, repeat=3):
        for vs in VALS:
            x, y, z = (unary(u, num(v)) for u, v in zip(us, vs))
            flat = (c["a"], c["b"])
            # as the text is read by C: by precedence, then the two parenthesised groupings
            left = ("bin", c["b"], ("bin", c["a"], x, y), z)
            right = ("bin", c["a"], x, ("bin", c["b"], y, z))
            for e in (left, right, ("bin", c["b"], ("par", left[2]), z), ("un", "-", ("par", left)), ("un", "~", ("par", right))):
                n += check_expr(cs, e, (0, 1))
            assert flat
    return ["nontrivial"] if n > 100 else []


def triple_items(tier):
    for ops in itertools.product(OPS, repeat=3):
        yield {"ops": ops}
    if tier == "thorough":
        for ops in itertools.product(OPS, repeat=4):
            yield {"ops": ops}


def trees(ops):
    """All binary trees over the operators, operands are numbered."""

    def build(i, j):
        if i == j:
            yield i
            return
        for k in range(i, j):
            for l in build(i, k):
                for r in build(k + 1, j):
                    yield (ops[k], l, r)

    return build(0, len(ops))


def run_triple(c):
    cs = cstruct()
    n = 0
    for vs in ((9, 5, 2, 3, 1), (100, 3, 1, 4, 2), (1, 2, 3, 4, 5)):
        for t in trees(c["ops"]):

            def conv(t):
                return num(vs[t]) if isinstance(t, int) else ("bin", t[0], conv(t[1]), conv(t[2]))

            n += check_expr(cs, conv(t), (0, 1))
        # and the bare sequence: the tree C builds, found by an independent precedence climb
        toks = [str(vs[0])]
        for op, v in zip(c["ops"], vs[1:]):
            toks += [op, str(v)]
        e = climb(list(toks))
        n += check_expr(cs, e, (0, 1))
        check("".join(tokens(e)) == "".join(toks), "harness")
    return ["nontrivial"] if n else []


def climb(toks, prio=0):
    left = num(int(toks.pop(0)))
    while toks and PRIO[toks[0]] >= prio:
        op = toks.pop(0)
        right = climb(toks, PRIO[op] + 1)
        left = ("bin", op, left, right)
    return left


SUFFIX = ["", "u", "U", "l", "L", "ul", "UL", "lu", "LU", "ll", "LL", "ull", "ULL", "llu", "LLU", "uL", "Ul"]


def shift_items(tier):
    for n in range(0, 5000, 1 if tier == "thorough" else 7):
        yield {"n": n}
    if tier != "thorough":
        for k in range(13):
            for d in (-1, 0, 1):
                if 0 <= 2**k + d < 5000:
                    yield {"n": 2**k + d}


def run_shift(c):
    cs = cstruct()
    n = c["n"]
    for v in (1, 3, 0x80, 0x12345678, 2**64 - 1, 2**127 + 5, 0, 10**40):
        a = num(v)
        for e in (("bin", "<<", a, num(n)), ("bin", ">>", a, num(n)), ("bin", ">>", ("bin", "<<", a, num(n)), num(n)), ("bin", ">>", ("un", "-", a), num(n)),
                  ("bin", "<<", ("un", "~", a), num(n)), ("bin", "-", ("par", ("bin", "<<", num(1), num(n))), num(1)), ("bin", "*", ("par", ("bin", "<<", a, num(n))), a),
                  ("bin", "%", ("par", ("bin", "<<", a, num(n))), num(1000003)), ("bin", "/", ("par", ("bin", "<<", a, num(n))), num(7)),
                  ("bin", "&", ("bin", "<<", a, num(n)), ("un", "-", num(256))), ("bin", "^", ("bin", "<<", a, num(n)), ("un", "~", num(0)))):  # fmt: skip
            check(check_expr(cs, e, (1,)), "harness")
    cs.consts["BITS"] = n
    check(evaluate(cs, "1 << BITS") == 2**n and evaluate(cs, "1 << n", {"n": n}) == 2**n and evaluate(cs, "-1 >> n", {"n": n}) == -1, "shift by a name", n)
    return ["nontrivial"]


def literal_items(tier):
    vals = [*range(0, 300), *(2**k + d for k in range(8, 129) for d in (-1, 0, 1)), 0xDEADBEEF, 0xABCDEF, 0xBADC0DE, 0xB0B, 0xB1, 0xB]
    for i in range(0, len(vals), 10):
        yield {"vals": vals[i : i + 10]}


def spellings(v):
    return [str(v), hex(v), "0x" + f"{v:X}", f"0X{v:x}", f"0x00{v:x}", bin(v), f"0B{v:b}", f"0b000{v:b}", f"0{v:o}", f"00{v:o}"]


def run_literal(c):
    cs = cstruct()
    cs.consts["K"] = 3
    for v in c["vals"]:
        for s in spellings(v):
            for suf in SUFFIX:
                lit = s + suf
                for txt, exp in ((lit, v), (f" {lit} ", v), (f"-{lit}", -v), (f"({lit})", v), (f"{lit}+1", v + 1), (f"K*{lit}", 3 * v), (f"{lit}-{lit}", 0)):
                    got = evaluate(cs, txt)
                    check(got == exp, repr(txt), "is", got, "expected", exp)
    return ["nontrivial"]


def sizeof_items(tier):
    for n in [*SCALARS, *ALIASES]:
        if sizes_of(n) is not None:
            yield {"name": n}


def run_sizeof(c):
    cs = cstruct(pointer="uint32")
    cs.load("struct S { uint8 a; uint32 b; }; typedef S Alias; enum E : uint16 { A }; union U { uint64 a; char b[3]; }; typedef struct { S s[2]; } V;")
    n, name = sizes_of(c["name"]), c["name"]
    spaced = name.replace(" ", "  ")
    for txt, exp in [(f"sizeof({name})", n), (f"sizeof( {spaced} )", n), (f"sizeof ({name})", n), (f"sizeof({name})*2", n * 2), (f"2*sizeof({name})+1", 2 * n + 1),
                     (f"-sizeof({name})", -n), (f"(sizeof({name}))", n), (f"sizeof({name})-sizeof({name})", 0), (f"1 << sizeof({name})", 1 << n),
                     (f"~ sizeof({name}) & 0xff", ~n & 255), (f"sizeof({name}) + sizeof(S) * sizeof(E)", n + 10), (f"100-sizeof(Alias)-sizeof({name})", 95 - n),
                     (f"sizeof(U)*sizeof({name})", 8 * n), (f"(sizeof(V)+sizeof({name}))%7", (10 + n) % 7)]:  # fmt: skip
        x = Expression(cs, txt)
        for _ in range(3):
            check(x.evaluate() == exp, txt, "is", x.evaluate(), "expected", exp)
    return ["nontrivial"]


# --- generated -------------------------------------------------------------------------------------------------------
IDS = ["a", "b", "n", "x", "u", "l", "ul", "K", "e", "f", "len", "_x", "a1", "B2", "x1", "b1", "sizeofx", "size_of", "uint", "EOFF", "O", "z_", "abc", "deadbeef",
       "L", "U", "A_B", "xFF", "o7", "ll", "_", "__a", "q" * 31, "q" * 32, "q" * 33, "Long_name_" * 13, "w" * 255 + "1", "w" * 255 + "2"]  # fmt: skip


COUNTS = [31, 32, 33, 53, 63, 64, 65, 100, 127, 128, 129, 192, 255, 256, 257, 300, 511, 512, 1000, 1023, 1024, 1025, 2048, 4096, 4999]


def literal(src):
    k = src.int(0, 3)
    v = src.int(0, 20) if k < 2 else int_value(src, src.pick([8, 16, 32, 64, 100]), False)
    return ("num", v, src.pick(spellings(v)) + (src.pick(SUFFIX) if src.bool(1, 3) else ""))


def tree(src, depth, ids):
    k = src.weighted([(3, "num"), (3 if ids else 0, "id"), (8 if depth else 0, "bin"), (2 if depth else 0, "un"), (2 if depth else 0, "par"), (1, "sizeof")])
    if k == "num":
        return literal(src)
    if k == "id":
        return ("id", src.pick(ids))
    if k == "sizeof":
        return ("sizeof", src.pick(["uint8", "uint32", "char", "unsigned int", "wchar_t", "unsigned long long", "double", "int48"]))
    if k == "un":
        return ("un", src.pick("-~"), tree(src, depth - 1, ids))
    if k == "par":
        return ("par", tree(src, depth - 1, ids))
    op = src.pick(OPS)
    right = tree(src, depth - 1, ids)
    if op in ("<<", ">>") and src.bool(3, 4):
        v = src.int(0, 40) if src.bool(3, 4) else src.pick(COUNTS)
        right = ("num", v, src.pick(spellings(v)))
    return ("bin", op, tree(src, depth - 1, ids), right)


def ops_of(e):
    return (e[0] in ("bin", "un")) + sum(ops_of(x) for x in e[1:] if isinstance(x, tuple))


def ids_of(e):
    if e[0] == "id":
        return {e[1]}
    return set().union(*(ids_of(x) for x in e[1:] if isinstance(x, tuple)), set())


def gen_tree(src):
    ids = src.subset(IDS, 1, 4)
    ids = ids[:6]
    consts = {i: src.int(-3, 20) if src.bool() else int_value(src, 32, True) for i in ids if src.bool()}
    ctxs = []
    for _ in range(src.int(1, 4)):
        ctx = {i: src.int(-3, 20) if src.bool() else int_value(src, 32, True) for i in ids if i not in consts or src.bool()}
        ctxs.append(ctx)
    e = tree(src, src.int(1, 6), ids)
    # contexts under which the evaluation fails
    bad = src.int(0, 3)
    return {"e": e, "consts": consts, "ctxs": ctxs, "style": src.int(0, 2), "ws": src.int(0, 1 << 60), "order": [src.int(0, 9) for _ in range(8)],
            "bad": bad, "wrap": src.int(0, 2)}  # fmt: skip


def expected(e, ctx, consts):
    try:
        return ("ok", value(e, lambda n: ctx[n] if n in ctx else consts[n], sizes_of))
    except Huge:
        return ("huge", None)
    except Undefined:
        try:
            value(e, lambda n: ctx[n] if n in ctx else consts[n], sizes_of, False)
        except Huge:
            return ("huge", None)
        except (Undefined, KeyError):
            pass
        return ("undefined", None)
    except KeyError:
        return ("missing", None)


def attempt(fn):
    try:
        return ("ok", fn())
    except Exception as e:
        return ("err", type(e).__name__)


def run_tree(c):
    e, consts = c["e"], c["consts"]
    cs = cstruct()
    cs.consts.update(consts)
    txt = text(e, c["style"], Source(seed=c["ws"]))
    shared = Expression(cs, txt)
    wrap = [lambda v: v, lambda v: v if not -128 <= v < 128 else cs.int8(v), lambda v: cs.int64(v)][c["wrap"]]
    empty = {} if c["bad"] != 1 else None
    plans = [c["ctxs"][i % len(c["ctxs"])] if i < 7 else empty for i in c["order"]]
    if c["bad"] == 2:
        # a context that makes divisors zero
        plans.insert(1, {i: 0 for i in ids_of(e)})
    labels = []
    for ctx in plans:
        real = ctx if ctx is None else {k: wrap(v) for k, v in ctx.items()}
        kind, exp = expected(e, ctx or {}, consts)
        if kind == "huge":
            continue
        fresh = attempt(lambda: Expression(cs, txt).evaluate(real))
        got = attempt(lambda: shared.evaluate(real))
        check(got == fresh, repr(txt), "with", ctx, "gives", got, "a fresh object", fresh)
        if kind == "ok":
            check(got == ("ok", exp), repr(txt), "with", ctx, consts, "gives", got, "expected", exp)
            labels = ["nontrivial"] if ops_of(e) >= 2 else []
        elif kind == "missing":
            check(got[0] == "err", repr(txt), "with", ctx, consts, "gives", got, "although an identifier is unknown")
            labels.append("missing")
    return labels


def chain(src, n, ids, depth, ops):
    """A flat sequence of n operators; how it groups is decided by precedence climbing."""

    def operand():
        k = src.weighted([(4, "num"), (3, "id"), (2, "un"), (2 if depth else 0, "par"), (1, "sizeof")])
        if k == "num":
            return literal(src)
        if k == "id":
            return ("id", src.pick(ids))
        if k == "sizeof":
            return ("sizeof", src.pick(["uint8", "uint32", "unsigned int", "int48"]))
        if k == "un":
            e = ("id", src.pick(ids))
            for _ in range(src.pick([1, 2, 5, 20])):
                e = ("un", src.pick("-~"), e)
            return e
        return ("par", chain(src, src.int(0, 4), ids, depth - 1, ops))

    items = [operand()]
    for _ in range(n):
        op = src.pick(ops)
        right = operand()
        if op in ("<<", ">>"):
            v = src.int(0, 12) if src.bool(9, 10) else src.pick(COUNTS)
            right = ("num", v, src.pick(spellings(v)))
        elif op in "/%" and src.bool(7, 8):
            v = src.int(1, 12)
            right = ("num", v, src.pick(spellings(v)))
        items += [op, right]

    def climb_items(prio):
        left = items.pop(0)
        while items and PRIO[items[0]] >= prio:
            op = items.pop(0)
            left = ("bin", op, left, climb_items(PRIO[op] + 1))
        return left

    return climb_items(0)


def gen_long(src):
    ids = src.subset(IDS, 2, 6)
    consts = {i: src.int(0, 300) for i in ids}
    ctxs = [{}] + [{i: src.int(0, 300) for i in ids if src.bool()} for _ in range(src.int(0, 2))]
    ops = src.pick([OPS, ["+", "-"], ["|", "^", "&"], ["+", "-", "*", "/", "%"], ["|", "&", "+", ">>"], [">>", "<<", "&", "-"]])
    e = chain(src, src.pick([8, 12, 16, 30, 31, 32, 33, 50, 64, 100, 150]), ids, src.int(0, 4), ops)
    for _ in range(src.pick([0, 0, 1, 5, 30, 80])):
        e = ("par", e) if src.bool(3, 4) else ("un", src.pick("-~"), ("par", e))
    return {"e": e, "consts": consts, "ctxs": ctxs, "style": src.int(0, 2), "ws": src.int(0, 1 << 60), "order": [src.int(0, 9) for _ in range(3)], "bad": 0, "wrap": 0}


def show_tree(c):
    return repr(text(c["e"], c["style"], Source(seed=c["ws"]))) + f" consts={c['consts']} contexts={c['ctxs']}"


# --- callers ---------------------------------------------------------------------------------------------------------
def gen_callers(src):
    names, defs = [], []
    for i in range(src.int(1, 6)):
        kind = src.weighted([(3, "define"), (3, "enum"), (3, "array"), (2, "field")])
        e = tree(src, src.int(1, 4), list(names))
        defs.append((kind, e))
        if kind == "define":
            names.append(f"C{i}")
    return {"defs": defs, "style": src.int(0, 2), "ws": src.int(0, 1 << 60), "split": src.bool(1, 3), "n": src.int(0, 3)}


def run_callers(c):
    consts, chunks, checks = {}, [], []
    ws = Source(seed=c["ws"])
    cs_types = []
    for i, (kind, e) in enumerate(c["defs"]):
        st, v = expected(e, {}, consts)
        if st != "ok":
            raise Discard
        txt = text(e, c["style"], ws)
        if kind == "define":
            consts[f"C{i}"] = v
            chunks.append(f"#define C{i} {txt}")
            checks.append((f"C{i}", lambda cs, i=i, v=v: (cs.consts[f"C{i}"], v)))
            checks.append((f"C{i}", lambda cs, i=i, v=v: (getattr(cs, f"C{i}"), v)))
        elif kind == "enum":
            w = v % (1 << 64)
            inner = txt if v == w else f"({txt}) & 0xffffffffffffffff"
            chunks.append(f"enum E{i} : uint64 {{ A = {inner}, B, C = A , D = {txt if v == w else 0}\n}};")
            checks.append((f"E{i}", lambda cs, i=i, w=w: (cs.resolve(f"E{i}").A.value, w)))
            checks.append((f"E{i}.C", lambda cs, i=i, w=w: (cs.resolve(f"E{i}").C.value, w)))
            if w + 1 < 1 << 64:
                checks.append((f"E{i}.B", lambda cs, i=i, w=w: (cs.resolve(f"E{i}").B.value, w + 1)))
        else:
            n = v % 17
            inner = f"(({txt}) & 0xffff) % 17" if v != n else txt
            n = (v & 0xFFFF) % 17 if v != n else v
            cs_types.append((i, n))
            if kind == "array":
                chunks.append(f"struct S{i} {{ uint8 a; uint8 x[{inner}]; uint8 b; }};")
            else:
                chunks.append(f"struct S{i} {{ uint8 n; uint8 x[({inner}) + n]; uint8 b; }};")
            k = n + (c["n"] if kind == "field" else 0)
            data = bytes([c["n"]]) + bytes(range(100, 100 + k)) + b"\x07"
            checks.append((f"S{i}", lambda cs, i=i, k=k, data=data: ((len(cs.resolve(f"S{i}")(data).x), cs.resolve(f"S{i}")(data).b, cs.resolve(f"S{i}")(data).dumps()), (k, 7, data))))
    for compiled in (True, False):
        cs = cstruct()
        if c["split"]:
            for x in chunks:
                cs.load(x + "\n", compiled=compiled)
        else:
            cs.load("\n".join(chunks) + "\n", compiled=compiled)
        for _ in range(2):
            for what, fn in checks:
                got, exp = fn(cs)
                check(got == exp, what, "is", got, "expected", exp, "in", "\n".join(chunks))
    return ["nontrivial"] if any(ops_of(e) >= 2 for _, e in c["defs"]) else []


def show_callers(c):
    ws = Source(seed=c["ws"])
    return "; ".join(f"{k} {text(e, c['style'], ws)!r}" for k, e in c["defs"])


def subs():
    return [
        Sub("pairs", run_pair, items=pair_items, rule="100 operator pairs x 216 unary prefixes x 5 operand sets x groupings x spacing"),
        Sub("triples", run_triple, items=triple_items, rule="1000 operator triples (thorough: also 10000 quadruples) x all groupings"),
        Sub("shifts", run_shift, items=shift_items, rule="shift counts up to 5000"),
        Sub("literals", run_literal, items=literal_items, rule="literal forms x suffixes"),
        Sub("sizeof", run_sizeof, items=sizeof_items, rule="every sized built-in name"),
        Sub("tree", run_tree, gen_tree, quick=20000, thorough=1500000, show=show_tree),
        Sub("long", run_tree, gen_long, quick=4000, thorough=200000, show=show_tree),
        Sub("callers", run_callers, gen_callers, quick=6000, thorough=300000, show=show_callers),
    ]
