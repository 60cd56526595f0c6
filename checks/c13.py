"""C13: definition parsing ignores comments, spacing and the order of unrelated definitions."""

import os
import re
import tempfile

from dissect.cstruct import cstruct
from dissect.cstruct.exceptions import ResolveError

from lib.common import *
from lib.gen import ALIAS_OF
from lib.harness import Discard, Sub
from lib.model import ALIASES, SCALARS, canon
from lib.render import body, def_text
from lib.src import Source

RULE = (
    "Generated definition sets (constants, enums, flags, structures, unions, typedefs with several names, multi-word types) rewritten "
    "with random whitespace and comments at every token boundary, with the definitions in another order that respects references, "
    "split over several loads or a file; the types must have the same description and parse the same. Histories of alias "
    "declarations against a table. All built-in synonyms. Non-trivial: a rewriting with at least one comment and newline, or a "
    "history with an alias of an alias."
)
ASSUMPTIONS = [
    "#define lines keep their line structure (only blanks and comments without newline inside)",
    "alias chains of at most 9 steps; typedefs of arrays and pointers are not redeclared (every declaration makes a new type)",
]

TOKEN = re.compile(r"#define[^\n]*|#\[[a-z]+\]|<<|>>|[A-Za-z_0-9]+|[^\sA-Za-z_0-9]")
WORDS = ["x", "it's", '"', "'", "say \"hi\"", "}", "};", "struct Z {", "enum Q { A };", "#define NOPE 3", "*", "**", "a = b", "/", "uint8 zz;", "[", "ünï", "EOF", ":", ",",
         "typedef", "\\", "0x", "//", "- x", "$", "@"]  # fmt: skip


def comment(src, multi=True):
    words = " ".join(src.pick(WORDS) for _ in range(src.int(0, 4)))
    k = src.int(0, 3)
    if k == 0 and multi:
        words = words.replace(" ", "\n")
    words = words.replace("*/", "* /")
    return f"/*{words}*/" if k < 2 else f"/* {words} */"


def line_comment(src):
    words = " ".join(src.pick([*WORDS, "/*", "*/", "/* x"]) for _ in range(src.int(0, 4)))
    if words.endswith("\\"):
        words += "."
    return "//" + words + src.pick(["\n", "\r\n"])


def gap(src, need, calm):
    """Whitespace between two tokens."""
    out = ""
    n = src.weighted([(6, 0), (5, 1), (2, 2), (1, 3)]) if calm else src.weighted([(2, 0), (5, 1), (3, 2), (2, 3)])
    for _ in range(n):
        k = src.weighted([(6, " "), (2, "\t"), (3, "\n"), (1, "\r\n"), (1, "\f"), (1, "\v"), (3, "c"), (3, "l")])
        out += comment(src) if k == "c" else line_comment(src) if k == "l" else k
    if need and not out:
        out = " "
    return out


def hgap(src, need):
    out = ""
    for _ in range(src.int(0, 2)):
        k = src.weighted([(3, " "), (2, "\t"), (1, "c")])
        out += comment(src, False) if k == "c" else k
    if need and not out:
        out = " "
    return out


def rewrite(text, src):
    """The same tokens with other gaps."""
    out, prev, calm = gap(src, False, False), None, src.bool()
    for tok in TOKEN.findall(text):
        if tok.startswith("#define"):
            _, name, value = tok.split(None, 2)
            if prev is not None and not out.endswith("\n"):
                out += "\n"
            out += "#define" + hgap(src, True) + name + hgap(src, True)
            if value[:1] in "\"'b":
                out += value
            else:
                parts = TOKEN.findall(value)
                for i, v in enumerate(parts):
                    out += v + (hgap(src, need_space(v, parts[i + 1])) if i + 1 < len(parts) else "")
            out += hgap(src, False)
            out += line_comment(src) if src.bool(1, 3) else src.pick(["\n", "\r\n", "\n\n"])
            prev = None
            continue
        if prev is not None:
            out += gap(src, need_space(prev, tok), calm)
        elif out and not out[-1].isspace():
            out += src.pick(["", " "])
        out += tok
        prev = tok
    out += gap(src, False, calm)
    return out


def need_space(a, b):
    w = re.compile(r"[A-Za-z_0-9]")
    return bool(w.match(a[-1]) and w.match(b[0])) or (a == b == "-") or (a == "/" and b in "/*") or (a in ("enum", "flag") and b in "{:")


# --- descriptions ----------------------------------------------------------------------------------------------------
def describe(cs, t, seen=()):
    name = t.__name__
    if re.match(r"__anonymous_\d+__", name):
        name = re.sub(r"__anonymous_\d+__", "__anonymous__", name)
    if "[" in name:
        name = "".join(name.split())  # of the expression
    out = [name, t.size, t.alignment, t.dynamic]
    if t in seen:
        return out
    if hasattr(t, "__fields__"):
        for f in t.__fields__:
            out.append((f.name, f.bits, f.offset, f.alignment, describe(cs, f.type, (*seen, t))))
        out.append([n for n in t.fields])
        out.append(t.__compiled__)
        out.append(t.__align__)
        out.append([b.__name__ for b in t.__mro__[1:3]])
    elif hasattr(t, "__members__"):
        out.append([(n, m.value) for n, m in t.__members__.items()])
        out.append(describe(cs, t.type, (*seen, t)))
        out.append([b.__name__ for b in t.__mro__[1:3]])
    elif hasattr(t, "num_entries"):
        out.append(("".join(str(t.num_entries).split()), t.null_terminated))
        out.append(describe(cs, t.type, (*seen, t)))
    elif t.__name__.endswith("*"):
        out.append(describe(cs, t.type, (*seen, t)))
    else:
        out.append(cs.resolve(t.__name__) is t)
    return out


def signature(cs, names):
    out = {}
    for n in names:
        t = cs.resolve(n)
        out[n] = describe(cs, t)
    out["consts"] = sorted((k, repr(v), type(v).__name__) for k, v in cs.consts.items())
    out["typedefs"] = sorted(cs.typedefs)
    return out


# --- rewriting -------------------------------------------------------------------------------------------------------
STRINGS = ['"text"', '"a // b"', '"/* x */"', "'it is'", "'a \"q\" /*'", "b'raw'", '""', "'//'", "b'\\x00/*'"]


def chunks_of(c):
    """[(text, defined names, needed names)]"""
    p = c["p"]
    env = Env(p)
    out = []
    for n, v in p["consts"]:
        out.append((f"#define {n} {v}\n", {n}, set()))
    for i, s in enumerate(c["strings"]):
        out.append((f"#define STR{i} {s}\n", {f"STR{i}"}, set()))
    for i, (txt, _) in enumerate(c["defines"]):
        out.append((f"#define DEF{i} {txt}\n", {f"DEF{i}"}, set(re.findall(r"[A-Za-z_]\w*", txt))))
    for d in p["defs"]:
        txt = def_text(d)
        extra = c["extra"].get(d["n"], [])
        if extra and d["k"] in ("struct", "union") and d.get("style"):
            txt = txt[: txt.rindex(d["n"])] + ", ".join([d["n"], *extra]) + ";"
        if d["n"] in c["flags"] and d["k"] in ("struct", "union"):
            txt = "#[nocompile]\n" + txt
        names = {d["n"], *extra}
        used = set(re.findall(r"[A-Za-z_]\w*", txt)) - names
        out.append((txt + "\n", names, used))
    for i, (target, _) in enumerate(c["typedefs"]):
        out.append((f"typedef {target} TD{i};\n", {f"TD{i}"}, set(re.findall(r"[A-Za-z_]\w*", target))))
    return out


def gen_rewrite(src):
    g = Gen(src, Opt(helpers=3))
    p = g.prog()
    env = g.env
    extra, flags = {}, []
    for d in p["defs"]:
        if d["k"] in ("struct", "union") and src.bool(1, 2):
            d["style"] = src.int(1, 2)
            extra[d["n"]] = [f"{d['n']}_{x}" for x in "abc"[: src.int(1, 3)]]
        if src.bool(1, 8):
            flags.append(d["n"])
    tds = []
    for i in range(src.int(0, 3)):
        names = [*[d["n"] for d in p["defs"]], *src.shuffle(list(ALIASES))[:5], "uint8", *[f"TD{j}" for j in range(i)]]
        t = src.pick(names)
        tds.append((t, None))
    defines = []
    for i in range(src.int(0, 2)):
        a, b = src.int(0, 9), src.int(0, 9)
        prior = [n for n, _ in p["consts"]] + [f"DEF{j}" for j in range(i)]
        txt = src.pick([f"{a}", f"({a} + {b})", f"{a}*{b}-{b}", f"0x{a:x} << {b}", f"-{a}", f"~({a}|{b})", f"sizeof(uint32) * {a}"])
        if prior and src.bool():
            txt = f"{src.pick(prior)} + {txt}"
        defines.append((txt, None))
    v = gen_value(src, env, TOP)
    raw, mask = env.dumps(TOP, v)
    return {"p": p, "extra": extra, "flags": flags, "typedefs": tds, "defines": defines, "strings": src.subset(STRINGS, 1, 8), "v": v, "raw": raw, "mask": mask,
            "ws": src.int(0, 1 << 60), "perm": src.bool(), "noise": src.bool(4, 5), "split": src.int(0, 3)}  # fmt: skip


def permute(chunks, src):
    """A random order in which everything is defined before its use, and #[..] lines stay with their definition."""
    left = list(chunks)
    alld = set().union(*(names for _, names, _ in chunks))
    done, out = set(), []
    while left:
        ready = [x for x in left if not (x[2] & alld) - done - x[1]]
        x = src.pick(ready)
        left.remove(x)
        out.append(x)
        done |= x[1]
    return out


def variant(c):
    src = Source(seed=c["ws"])
    chunks = chunks_of(c)
    if c["perm"]:
        # reversed dependencies between constants and fields of the same name cannot occur: constants are K<n>, DEF<n>
        chunks = permute(chunks, src)
    texts = [x[0] for x in chunks]
    if c["split"] == 1:
        k = src.int(0, len(texts))
        parts = ["".join(texts[:k]), "".join(texts[k:])]
    elif c["split"] == 2:
        parts = texts
    else:
        parts = ["".join(texts)]
    return [rewrite(x, src) if c["noise"] else x for x in parts]


def run_rewrite(c):
    p = c["p"]
    env = Env(p)
    base = "".join(x[0] for x in chunks_of(c))
    parts = variant(c)
    for compiled in (True, False):
        css = []
        for ts in ([base], parts):
            cs = cstruct(endian=p["endian"], pointer=p["ptr"])
            for t in ts:
                if c["split"] == 3 and ts is parts:
                    with tempfile.NamedTemporaryFile("w", suffix=".h", delete=False, newline="") as fh:
                        fh.write(t)
                    try:
                        cs.loadfile(fh.name, compiled=compiled, align=p["align"])
                    finally:
                        os.unlink(fh.name)
                else:
                    cs.load(t, compiled=compiled, align=p["align"])
            css.append(cs)
        a, b = css
        names = [d["n"] for d in p["defs"]] + [x for l in c["extra"].values() for x in l if x in a.typedefs] + [f"TD{i}" for i in range(len(c["typedefs"]))]
        sa, sb = signature(a, names), signature(b, names)
        for n in sa:
            check(sa[n] == sb[n], f"{n} differs:\n", sa[n], "\n", sb[n], "\nin", repr(parts))
        for cs in css:
            for d in p["defs"]:
                for x in c["extra"].get(d["n"], []):
                    if d.get("style"):
                        check(cs.resolve(x) is cs.resolve(d["n"]) and getattr(cs, x) is getattr(cs, d["n"]), x, "is not", d["n"])
            for i, (t, _) in enumerate(c["typedefs"]):
                check(cs.resolve(f"TD{i}") is cs.resolve(t), f"TD{i} is not", t)
            for i, s in enumerate(c["strings"]):
                check(cs.consts[f"STR{i}"] == eval(s), f"STR{i} is", cs.consts[f"STR{i}"], "expected", s)  # noqa: S307
            got = norm(env, TOP, cs.T(c["raw"]))
            check(same(got, c["v"]), "parsed", got, "expected", c["v"])
            check(eq_masked(cs.T(c["raw"]).dumps(), c["raw"], c["mask"]), "dumps")
    labels = feats(env)
    if c["noise"] and any("/" in x and "\n" in x for x in parts):
        labels.append("nontrivial")
    labels.append(f"split{c['split']}")
    if c["perm"]:
        labels.append("permuted")
    return labels


def show_rewrite(c):
    return f"{c['p']['endian']} align={c['p']['align']}\n" + "".join(x[0] for x in chunks_of(c)) + "\n--- variant:\n" + "\n".join(repr(x) for x in variant(c))


# --- a fixed text, every single gap ----------------------------------------------------------------------------------
FIXED = """#define N 3
#define M (N + 1)
enum E : unsigned short { A = 1, B, C = A + N, D = (B << 2) | 1 };
flag F : uint8 { X, Y = 4, Z };
enum { ANON1 = 5, ANON2 };
struct S { uint8 n; unsigned long long q : 3; uint64 r : 61; char name[n]; wchar_t w[N]; uint8 grid[2][N + 1]; E e; struct S * next; F * f; };
typedef struct _P { union { uint32 u; struct { uint16 lo; uint16 hi; }; }; struct { uint8 c; } in[2]; char z[]; } P, Q, R;
union U { uint32 a; S * b; char c[sizeof(uint32)]; };
typedef unsigned int UI;
typedef P * PP;
typedef uint8 ARR[N][2];
struct T { UI a; P p; PP pp; ARR arr; uint8 k[M - 1]; uint8 rest[EOF]; };
"""
GAPS = [" ", "  ", "\t", "\n", "\r\n", "\n\n", "\f", "\v", "/**/", "/* x */", "/* ; } */", "/*\n*/", "// x\n", "//\n", "// ' \" /* \n", " /* it's */ ", "/* \" */", "//*\n", "/*/ x */", "/***/", "// x \\ y\r\n"]


def fixed_items(tier):
    toks = fixed_tokens()
    for i in range(len(toks) + 1):
        yield {"at": i}
    if tier == "thorough":
        for i in range(len(toks) - 1):
            for j in range(i + 1, min(i + 4, len(toks))):
                yield {"at": i, "also": j}


def fixed_tokens():
    """(token, gap allowed after it may hold newlines, text of the gap)"""
    out = []
    for m in TOKEN.finditer(FIXED):
        tok = m.group()
        if tok.startswith("#define"):
            out += [(x, False) for x in re.findall(r"#define|<<|\w+|[^\s\w]", tok)]
            out[-1] = (out[-1][0], "nl")
        else:
            out.append((tok, True))
    return out


def fixed_text(gaps):
    toks = fixed_tokens()
    out = gaps.get(0, "")
    for i, (tok, kind) in enumerate(toks):
        out += tok
        nxt = toks[i + 1][0] if i + 1 < len(toks) else ""
        g = gaps.get(i + 1)
        if kind == "nl":
            out += (g if g is not None and "\n" not in g else "") + "\n" if g is None or not g.startswith("//") else g
        elif g is not None and (kind is True or "\n" not in g):
            out += g
        elif nxt and (need_space(tok, nxt) or (kind is False and tok == "#define")):
            out += " "
        elif kind is False and toks[i - 1][0] == "#define":
            out += " "
    return out


def run_fixed(c):
    ref = cstruct().load(FIXED)
    names = ["E", "F", "S", "P", "Q", "R", "_P", "U", "UI", "PP", "ARR", "T"]
    base = signature(ref, names)
    n = 0
    for g in ["", *GAPS]:
        gaps = {c["at"]: g} if g else {}
        if "also" in c:
            gaps[c["also"]] = GAPS[(GAPS.index(g) + 5) % len(GAPS)] if g else " "
        txt = fixed_text(gaps)
        cs = cstruct()
        try:
            cs.load(txt)
        except Exception as e:
            raise Fail(f"{type(e).__name__}: {e} for {g!r} before token {c['at']}: {txt!r}") from None
        s = signature(cs, names)
        check(s == base, f"{g!r} before token {c['at']} changes", [(s[k], base[k]) for k in base if s[k] != base[k]], "in", repr(txt))
        check(cs.P is cs.Q is cs.R is cs._P, "typedef names differ")
        n += 1
    return ["nontrivial"] if n else []


# --- aliases ---------------------------------------------------------------------------------------------------------
def builtin_items(tier):
    for a, t in ALIASES.items():
        yield {"alias": a, "target": t}


def run_builtin(c):
    cs = cstruct()
    a, t = c["alias"], c["target"]
    T = cs.resolve(t)
    check(cs.resolve(a) is T, a, "is", cs.resolve(a), "expected", t)
    if a.isidentifier():
        check(getattr(cs, a) is T, "attribute", a)
    cs.load(f"typedef {a} X; struct S {{ {a} x; {a} y[2]; {a} *p; X z; }};")
    check(cs.X is T and cs.resolve("X") is T, "typedef of", a)
    f = cs.S.fields
    check(f["x"].type is T and f["z"].type is T and f["y"].type.type is T and f["p"].type.type is T, "fields of type", a)
    cs.load(f"typedef {t} X;")
    cs.load(f"typedef X X; typedef {a} X;")
    check(cs.X is T, "redeclaration of X")
    other = "uint8" if t != "uint8" else "int8"
    expect(lambda: cs.load(f"typedef {other} X;"), ValueError)
    check(cs.X is T, "X after a rejected declaration")
    if a.isidentifier():
        cs.load(f"typedef {t} {a};")
        expect(lambda: cs.load(f"typedef {other} {a};"), ValueError)
        check(cs.resolve(a) is T, a, "after a rejected declaration")
    spaced = " /* x */ ".join(a.split())
    cs.load(f"struct S2 {{ {spaced}\tx; }}; typedef {spaced} X2;")
    check(cs.S2.fields["x"].type is T and cs.X2 is T, "spaced", a)
    return ["nontrivial"]


NAMES = [f"N{i}" for i in range(7)]


def gen_alias(src):
    ops = []
    for i in range(src.int(1, 14)):
        k = src.weighted([(5, "typedef"), (3, "add"), (2, "obj"), (2, "struct"), (1, "replace"), (2, "use"), (1, "enum")])
        tgt = src.pick([*NAMES, *NAMES, "uint8", "DWORD", "unsigned int", "WORD", "BASE", "nope", "uint32", "UNION"])
        ops.append((k, src.pick(NAMES), tgt, src.int(0, 3)))
    return {"ops": ops, "compiled": src.bool()}


class Loop(Exception):
    pass


def run_alias(c):
    cs = cstruct()
    cs.load("struct BASE { uint8 a; uint16 b; }; union UNION { uint8 a; uint32 b; };", compiled=c["compiled"])
    table = {}  # name -> object or other name
    builtin = {n: cs.resolve(n) for n in ("uint8", "uint16", "uint32", "BASE", "UNION")}
    labels = set()

    def res(n):
        hops = 0
        while isinstance(n, str):
            n = canon(n)
            if n in table:
                n = table[n]
            elif n in builtin:
                return builtin[n]
            else:
                return None
            hops += 1
            if hops > 9:
                seen, m = set(), n
                while isinstance(m, str) and m in table:
                    if m in seen:
                        return None
                    seen.add(m)
                    m = table[m]
                raise Discard
        return n

    for step, (k, name, tgt, flag) in enumerate(c["ops"]):
        what = f"step {step} {k} {name} {tgt}"
        t = res(tgt)
        cur = res(name) if name in table else None

        def declare(fn, new, lazily, name=name):
            """fn() adds name -> new"""
            if name not in table:
                if t is None and not lazily:
                    expect(fn, ResolveError)
                    return
                fn()
                table[name] = new
            elif cur is None or t is None:
                expect(fn, ResolveError)
            elif cur is t:
                fn()
                table[name] = new
            else:
                expect(fn, ValueError)

        if k == "typedef":
            declare(lambda: cs.load(f"typedef {tgt} {name};"), t, False)
        elif k == "add":
            if isinstance(table.get(tgt), str):
                labels.add("nontrivial")
            declare(lambda: (cs.add_type if flag else cs.addtype)(name, tgt), tgt, True)
        elif k == "obj":
            if t is None:
                expect(lambda: cs.resolve(tgt), ResolveError)
            else:
                declare(lambda: cs.add_type(name, t), t, False)
        elif k == "replace":
            cs.add_type(name, tgt, replace=True)
            table[name] = tgt
        elif k == "struct":
            if name not in table:
                new = [name, *[n for n in NAMES if n not in table and n != name][: flag]]
                cs.load(f"typedef struct {{ uint8 a; }} {', '.join(new)};", compiled=c["compiled"])
                obj = cs.resolve(name)
                for n in new:
                    table[n] = obj
                if len(new) > 1:
                    labels.add("nontrivial")
            else:
                expect(lambda: cs.load(f"typedef struct {{ uint8 a; }} {name};"), ValueError, ResolveError)
        elif k == "enum":
            if name not in table:
                cs.load(f"enum {name} : uint8 {{ A{step} }};")
                table[name] = cs.resolve(name)
            else:
                expect(lambda: cs.load(f"enum {name} : uint8 {{ A{step} }};"), ValueError, ResolveError)
        else:
            txt = [f"struct Z{step} {{ uint8 q; {tgt} x; }};", f"struct Z{step} {{ {tgt} *x; }};", f"struct Z{step} {{ {tgt} x[2]; }};", f"typedef {tgt} Z{step};"][flag]
            if t is None:
                expect(lambda: cs.load(txt, compiled=c["compiled"]), ResolveError)
            else:
                cs.load(txt, compiled=c["compiled"])
                z = cs.resolve(f"Z{step}")
                got = z if flag == 3 else z.fields["x"].type if flag == 0 else z.fields["x"].type.type
                check(got is t, what, "uses", got, "expected", t)
                if tgt in table:
                    labels.add("nontrivial")
        for n in [*NAMES, "uint8", "DWORD", "unsigned int", "WORD", "BASE", "UNION"]:
            exp = res(n)
            if exp is None:
                expect(lambda n=n: cs.resolve(n), ResolveError)
                expect(lambda n=n: getattr(cs, n), ResolveError, AttributeError)
                check(n not in table or isinstance(table[n], str), "harness")
            else:
                got = cs.resolve(n)
                check(got is exp, "after", what, n, "is", got, "expected", exp)
                check(cs.resolve(got) is got, "resolve of a type")
                if " " not in n:
                    check(getattr(cs, n) is exp, "after", what, "attribute", n, "is", getattr(cs, n), "expected", exp)
    return sorted(labels)


# --- the older parser (DEF_LEGACY): what it supports means the same ------------------------------------------------------
def gen_legacy(src):
    g = Gen(src, Opt(unions=False, anon=False, multi=False, aligned=False, empty=False, maxfields=6, helpers=3))
    p = g.prog()
    for d in p["defs"]:
        if d["k"] == "struct":
            d["style"] = 0
    return {"p": p, "compiled": src.bool(), "shadow": src.pick(["", "a", "b", "c"]), "gaps": [src.int(0, 5) for _ in range(12)], "tds": [src.pick([d["n"] for d in p["defs"]] + ["uint16", "DWORD", "char"]) for _ in range(src.int(0, 2))]}


def legacy_ok(t):
    ptrs = 0
    dims = 0
    while t[0] in ("arr", "ptr"):
        dims += t[0] == "arr"
        ptrs += t[0] == "ptr"
        t = t[1]
    return t[0] != "inl" and " " not in t[1] and dims <= 1 and ptrs + dims <= 1 and len(t) == 2


def run_legacy(c):
    p = {**c["p"], "defs": [{**d} for d in c["p"]["defs"]]}
    for d in p["defs"]:
        if "f" in d:
            if any(f.get("b") and not legacy_ok(f["t"]) for f in d["f"]):
                raise Discard
            d["f"] = [f if legacy_ok(f["t"]) else {**f, "t": ("s", "uint8")} for f in d["f"]]
        elif " " in d["u"]:
            raise Discard
    text = prog_text(p)
    a = cstruct(endian=p["endian"], pointer=p["ptr"])
    b = cstruct(endian=p["endian"], pointer=p["ptr"])
    text = re.sub(r" : (\d+);", r":\1;", text)
    if c["shadow"]:
        text = f"#define {c['shadow']} 3\n" + text  # fields of that name hide it
    for i, n in enumerate(c["tds"]):
        text += f"typedef {n} TD{i};\n"
    # spaces where the older parser allows them, lines of comments
    gaps = iter(c["gaps"] * 1000)
    lines = []
    for line in text.split("\n"):
        k = next(gaps)
        if k == 1:
            lines.append("")
        elif k == 2 and not line.startswith("}"):
            lines.append("// a comment")
        elif k == 3:
            line = line.replace(" ", "  ").replace("      ", "    \t")
        elif k == 4 and line.endswith(";"):
            line += " // more"
        lines.append(line)
    a.load("\n".join(lines), deftype=cstruct.DEF_LEGACY, compiled=c["compiled"])
    b.load(text, compiled=c["compiled"])
    names = [d["n"] for d in p["defs"]] + [f"TD{i}" for i in range(len(c["tds"]))]
    x, y = signature(a, names), signature(b, names)
    for k in names:
        check(x[k] == y[k], k, "by the older parser", x[k], "otherwise", y[k])
    for i, n in enumerate(c["tds"]):
        check(a.resolve(f"TD{i}") is a.resolve(n), f"TD{i} is not {n}")
    return ["nontrivial"]


def subs():
    return [
        Sub("legacy", run_legacy, gen_legacy, quick=2000, thorough=60000, show=show_case),
        Sub("fixed", run_fixed, items=fixed_items, rule="every token boundary of a text with all constructs x 19 gaps"),
        Sub("builtin", run_builtin, items=builtin_items, rule="every built-in synonym"),
        Sub("alias", run_alias, gen_alias, quick=6000, thorough=300000),
        Sub("rewrite", run_rewrite, gen_rewrite, quick=6000, thorough=400000, show=show_rewrite),
    ]
