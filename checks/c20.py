"""C20: generated type stubs are valid Python naming exactly the loaded definitions."""

import ast
import contextlib
import io
import keyword
import math
import shutil
import sys
import tempfile
from pathlib import Path

import dissect.cstruct as top
from dissect.cstruct import types
from dissect.cstruct.cstruct import cstruct
from dissect.cstruct.tools import stubgen

from lib.common import *
from lib.gen import NAMES
from lib.harness import Discard, Sub
from lib.model import SCALARS, canon
from lib.render import body, prog_text
from lib.sut import flat_fields

RULE = (
    "Definition sets are generated (structures and unions with nested, anonymous, named inline and array members, bit-fields, pointers, "
    "enums, flags, anonymous enums, typedefs of every kind of type, constants of every literal type, names that are Python keywords, "
    "custom types) and loaded; the stub is compiled, and a resolver with Python's scoping rules looks up every declaration and every "
    "hint: each must lead to exactly the type of the cstruct object, and to the type that the definition says. Non-trivial: at least "
    "four declarations."
)
ASSUMPTIONS = [
    "names that cannot be declared in Python (keywords, names starting with digits) have no declaration",
    "constants whose value has no literal (infinities) only have to be declared",
    "classes for inline structures, which have no name of their own, are declared where they are used",
]

BUILTIN = set(cstruct().typedefs)
KINDS = {"Structure", "Union", "Enum", "Flag"}


def declarable(name):
    return name.isidentifier() and not keyword.iskeyword(name)


class Stub:
    """Stub text -> declarations"""

    def __init__(self, text, cs, cls="cstruct", prefix=""):
        self.text, self.cs, self.cls, self.prefix = text, cs, cls, prefix
        try:
            compile(text, "<stub>", "exec", dont_inherit=True)
            tree = ast.parse(text)
        except (SyntaxError, ValueError) as e:
            raise Fail(f"not valid Python: {e}\n{text}") from None
        nodes = [n for n in tree.body if isinstance(n, ast.ClassDef) and n.name == cls]
        check(len(nodes) == 1, "no class", cls, "in", text)
        self.node = nodes[0]
        self.tree = tree
        self.bound = {}
        self.names = self.scope(self.node)
        check([self.kind(b) for b in self.node.bases] == ["cstruct"], "bases of", cls, text)

    def scope(self, node):
        out = {}
        for n in node.body:
            if isinstance(n, ast.ClassDef):
                name = n.name
            elif isinstance(n, ast.AnnAssign):
                check(isinstance(n.target, ast.Name), "unexpected target in", self.text)
                name = n.target.id
            elif isinstance(n, ast.FunctionDef):
                check(n.name == "__init__", "function", n.name, "in", self.text)
                continue
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and n.value.value is ...:
                continue
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                name = n.targets[0].id
            else:
                raise Fail(f"unexpected statement {ast.dump(n)} in {self.text}")
            check(name not in out, "declared twice:", name, "in", self.text)
            out[name] = n
        return out

    def kind(self, node):
        """Name of something from the dissect.cstruct module, or None"""
        if self.prefix:
            if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id + "." == self.prefix:
                return node.attr
            return None
        return node.id if isinstance(node, ast.Name) else None

    def hint(self, node, scope, seen=()):
        """Expression of a type -> ("class", node), ("base", type), ("Array", x), ("Pointer", x), ("CharArray",) ..."""
        check(len(seen) < 20, "endless alias in", self.text)
        if isinstance(node, ast.Name) and node.id in scope:
            return self.declared(scope[node.id], scope, seen)
        if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id == self.cls:
            if node.attr in self.names:
                return self.declared(self.names[node.attr], self.names, seen)
            check(node.attr in BUILTIN, "unknown name", ast.unparse(node), "in", self.text)
            return ("base", self.cs.resolve(node.attr))
        if isinstance(node, ast.Subscript):
            k = self.kind(node.value)
            check(k in ("Array", "Pointer"), "unknown type", ast.unparse(node), "in", self.text)
            return (k, self.hint(node.slice, scope, seen))
        k = self.kind(node)
        check(k in ("CharArray", "WcharArray", *KINDS), "unknown name", ast.unparse(node), "in", self.text)
        return (k,)

    def declared(self, n, scope, seen):
        if isinstance(n, ast.ClassDef):
            return ("class", n)
        check(isinstance(n, ast.AnnAssign) and ast.unparse(n.annotation) == "TypeAlias" and n.value, "not a type:", ast.unparse(n))
        return self.hint(n.value, scope, (*seen, n))

    def match(self, h, T, what):
        """The hint must name the type"""
        if issubclass(T, types.CharArray):
            check(h == ("CharArray",), what, "is declared as", show(h), "but is", T)
        elif issubclass(T, types.WcharArray):
            check(h == ("WcharArray",), what, "is declared as", show(h), "but is", T)
        elif issubclass(T, types.Pointer):
            check(h[0] == "Pointer", what, "is declared as", show(h), "but is", T)
            self.match(h[1], T.type, what)
        elif issubclass(T, types.BaseArray):
            check(h[0] == "Array", what, "is declared as", show(h), "but is", T)
            self.match(h[1], T.type, what)
        elif not declarable(T.__name__):
            # the type itself has no declaration, its base is as close as it gets
            check(h[0] in [x.__name__ for x in T.__mro__], what, "is declared as", show(h), "but is", T)
        elif h[0] == "base":
            check(h[1] is T, what, "is declared as", show(h), "but is", T)
        else:
            check(h[0] == "class", what, "is declared as", show(h), "but is", T)
            self.bind(h[1], T, what)

    def bind(self, node, T, what):
        if node in self.bound:
            check(self.bound[node] is T, what, "is declared as class", node.name, "of", self.bound[node], "but is", T)
            return
        self.bound[node] = T
        what = f"{what}: class {node.name}"
        check(not node.keywords and len(node.bases) == 1, what, "bases")
        base = self.kind(node.bases[0])
        for k in ("Union", "Structure", "Flag", "Enum"):
            if issubclass(T, getattr(types, k)):
                check(base == k, what, "is declared as", base, "but is", T.__mro__)
                break
        else:
            check(base in [x.__name__ for x in T.__mro__], what, "is declared as", base, "but is", T.__mro__)
            return
        scope = self.scope(node)
        if k in ("Enum", "Flag"):
            check(sorted(scope) == sorted(m for m in T.__members__ if declarable(m)), what, "members", sorted(scope), "expected", sorted(T.__members__))
            return
        fields = {n: f for n, f in T.fields.items() if declarable(n)}
        got = {n for n, x in scope.items() if isinstance(x, ast.AnnAssign)}
        check(got == set(fields), what, "fields", sorted(got), "expected", sorted(fields))
        for n, f in fields.items():
            check(scope[n].value is None, what, n, "has a value")
            self.match(self.hint(scope[n].annotation, scope), f.type, f"{what}.{n}")
        for n, x in scope.items():
            if isinstance(x, ast.ClassDef):
                check(x in self.bound, what, "declares", n, "which is no field's type")
        for fn in node.body:
            if isinstance(fn, ast.FunctionDef):
                args = [*fn.args.posonlyargs, *fn.args.args, *fn.args.kwonlyargs][1:]
                if fn.args.posonlyargs:
                    check([a.arg for a in args] == ["fh"], what, "parameters", [a.arg for a in args])
                    continue
                check(sorted(a.arg for a in args) == sorted(fields), what, "parameters", [a.arg for a in args], "fields", sorted(fields))
                for a in args:
                    ann = ast.unparse(a.annotation).removesuffix(" | None")
                    check(ann == ast.unparse(scope[a.arg].annotation), what, "parameter", a.arg, "is", ann)

    def verify(self, consts, names):
        """consts, names: the names that were defined"""
        cs = self.cs
        fresh = cstruct()
        user = [n for n in cs.typedefs if n not in fresh.typedefs]
        check(set(user) == set(names), "types of the object", sorted(set(user) ^ set(names)), "defined", sorted(names))
        check(set(cs.consts) == set(consts), "constants of the object", sorted(set(cs.consts) ^ set(consts)), "defined", sorted(consts))
        for n, v in cs.consts.items():
            if not declarable(n):
                continue
            check(n in self.names, "constant", n, "is not declared in", self.text)
            x = self.names[n]
            check(isinstance(x, ast.AnnAssign), "constant", n, "is", ast.dump(x))
            ann = x.annotation
            check(isinstance(ann, ast.Subscript) and ast.unparse(ann.value) == "Literal", "constant", n, "is", ast.unparse(x))
            value = int(v) if isinstance(v, int) and not isinstance(v, bool) else v
            try:
                lit = ast.literal_eval(ann.slice)
            except ValueError:
                check(v is ... or isinstance(v, (float, complex)) and not finite(v) or isinstance(v, (tuple, list, dict, set)), "constant", n, "is", ast.unparse(x), "value", v)
                continue
            check(type(lit) is type(value) and lit == value, "constant", n, "is declared as", lit, "but is", v)
            if consts[n] is not ...:
                check(lit == consts[n] and type(lit) is type(consts[n]), "constant", n, "is declared as", lit, "but defined as", consts[n])
        for n in user:
            if not declarable(n):
                continue
            check(n in self.names, "type", n, "is not declared in", self.text)
            self.match(self.declared(self.names[n], self.names, ()), cs.resolve(n), n)
        for n, x in self.names.items():
            if isinstance(x, ast.ClassDef):
                check(x in self.bound, "declares", n, "which the object does not provide:", self.text)
                check(n not in user or self.bound[x] is cs.resolve(n), "class", n, "is not", cs.resolve(n) if n in user else None)
            else:
                check(n in user or n in cs.consts, "declares", n, "which the object does not provide:", self.text)


def finite(v):
    return math.isfinite(v.real) and math.isfinite(v.imag)


def show(h):
    return ("class", h[1].name) if h[0] == "class" else h[:1] + tuple(show(x) if isinstance(x, tuple) else x for x in h[1:])


# --- what the definitions say ----------------------------------------------------------------------------------------
def says(stub, env, cs, t, h, what):
    """The hint must name the type of the definition"""
    k = t[0]
    if k == "arr":
        if env.is_char(t[1]):
            check(h == ("CharArray",), what, "is declared as", show(h))
        elif env.is_wchar(t[1]):
            check(h == ("WcharArray",), what, "is declared as", show(h))
        else:
            check(h[0] == "Array", what, "is declared as", show(h))
            says(stub, env, cs, t[1], h[1], what)
    elif k == "ptr":
        check(h[0] == "Pointer", what, "is declared as", show(h))
        says(stub, env, cs, t[1], h[1], what)
    elif k == "s":
        check(h[0] == "base" and h[1].__name__ == canon(t[1]), what, "is declared as", show(h), "but is", t)
    elif k == "inl":
        check(h[0] == "class", what, "is declared as", show(h))
        says_struct(stub, env, cs, t[1], h[1], what)
    elif declarable(t[1]):
        check(h[0] == "class" and h[1].name in (t[1], f"_{t[1]}") and stub.names.get(h[1].name) is h[1], what, "is declared as", show(h), "but is", t)


def says_struct(stub, env, cs, d, node, what):
    scope = stub.scope(node)
    names = set()
    for n, f, _ in flat_fields(env, d):
        if declarable(n):
            names.add(n)
            check(n in scope, what, n, "is not declared")
            says(stub, env, cs, f["t"], stub.hint(scope[n].annotation, scope), f"{what}.{n}")
    check(names == {n for n, x in scope.items() if isinstance(x, ast.AnnAssign)}, what, "fields", sorted(scope))


# --- generated definition sets ---------------------------------------------------------------------------------------
ODD = ["from", "class", "None", "async", "lambda", "match", "type", "case", "import", "is", "True", "global", "pass", "del",
       "print", "int", "bytes", "list", "__slots__", "__init__", "__doc__", "_private", "Literal", "TypeAlias", "mro", "self", "cls", "fh", "args", "__self"]  # fmt: skip
LITERALS = [
    ("1", 1), ("-1", -1), ("0x1F", 31), ("0", 0), ("18446744073709551616", 1 << 64), ("2.5", 2.5), ("-1.5e300", -1.5e300),
    ("1e999", ...), ('"text"', "text"), ("'quo\"te'", "quo\"te"), ('"a\\nb"', "a\nb"), ("b'\\x00\\xff'", b"\0\xff"), ('b"c"', b"c"), ("(1, 2)", (1, 2)),
    ("[1, 'a']", [1, "a"]), ("None", None), ("True", True), ("{'a': 1}", {"a": 1}), ("{1}", {1}), ("(1 << 4) | 2", 18), ("0x10 + 1", 17),
    ("~0", -1), ("some_name", "some_name"), ("some words here", "some words here"), ("{ 1, 2", "{ 1, 2"), ("sizeof(uint32)", 4), ("2j", 2j), ("'\\x07\\u2028\\''", "\x07\u2028'"),
    ('""', ...), ("1.0f", "1.0f"), ("10UL", ...), ("'''x'''", "x"), ("...", ...), ("-0.0", -0.0), ("()", ()), ("L\"wide\"", 'L"wide"'),
]  # fmt: skip


def gen_set(src):
    p, env, v, raw, mask = prog_value(src, Opt(maxfields=src.pick([2, 4, 8]), helpers=src.int(0, 4)))
    g = Gen(src, Opt())
    g.p, g.env = p, env
    extra = []
    base = ["uint32", "DWORD", "char", "wchar_t", "unsigned int", "uint8_t", "float", "void", "uleb128", "int48", "uint24", "__u16", "long long"]
    named = [d["n"] for d in p["defs"]]
    known = []
    renames = {}
    for i in range(src.int(0, 6)):
        k = src.weighted([(3, "const"), (3, "typedef"), (2, "tarray"), (2, "tptr"), (2, "anonenum"), (2, "tstruct"), (2, "nested"), (1, "multi"),
                          (1, "tanon"), (1, "tanonarr"), (1, "selfref"), (2, "oddname"), (1, "custom"), (1, "api"), (1, "oddtype")])  # fmt: skip
        n = src.pick([f"x{i}_a", f"x{i}_T", f"x{i}_lower", f"x{i}_Up", f"__x{i}", f"_x{i}", f"__x{i}__", f"X{i}__", f"_{i}", f"x{i}"])
        ty = src.pick([*base, *named, *known])
        if k == "const":
            text, val = src.pick(LITERALS)
            extra.append(("text", f"#define {n} {text}", [], {n: val}))
        elif k == "typedef":
            extra.append(("text", f"typedef {ty} {n};", [n], {}))
            known.append(n)
        elif k == "tarray":
            ty = src.pick([x for x in [*base, *named] if x not in ("void", "uleb128") and (x in base or env.size(("st" if any(d["n"] == x and d["k"] in ("struct", "union") for d in p["defs"]) else "enum", x)) is not None)])
            dims = src.pick(["[2]", "[3][2]", "[0x4]", "[1 + 2]", "[]"])
            extra.append(("text", f"typedef {ty} {n}{dims};", [n], {}))
        elif k == "tptr":
            extra.append(("text", f"typedef {ty} {src.pick(['*', '**'])}{n};", [n], {}))
            known.append(n)
        elif k == "anonenum":
            kind = src.pick(["enum", "flag"])
            head = src.pick(["", " : uint8", " : int64"])
            extra.append(("text", f"{kind}{head or ' '} {{ {n}_A = 1, {n}_B, {n}_C = 8 }};", [], {f"{n}_A": 1, f"{n}_B": 2, f"{n}_C": 8}))
        elif k in ("tstruct", "multi", "nested", "selfref", "tanon", "tanonarr"):
            d = g.sdef(None, src.pick(["struct", "union"]), 1, True)
            b = body(d)
            if k == "tstruct":
                text, names = src.pick([(f"typedef {d['k']} {b} {n};", [n]), (f"typedef {d['k']} _{n} {b} {n};", [n, f"_{n}"])])
            elif k == "multi":
                text, names = src.pick([(f"{d['k']} {n} {b} {n}1, {n}2;", [n, f"{n}1", f"{n}2"]), (f"{d['k']} {b} {n}1, {n}2;", [f"{n}1", f"{n}2"]), (f"typedef {d['k']} {b} {n}1, {n}2;", [f"{n}1", f"{n}2"]), (f"{d['k']} {b} {n};", [n])])
            elif k == "nested":
                inner = src.pick(["Inner", n, *named])
                arr = src.pick(["", "[2]", "[2][3]", "[]"]) if d["f"] else ""
                text, names = f"struct {n} {{ {d['k']} {inner} {b} mem{arr}; {d['k']} {{ {d['k']} {b} deep; }} mem2; {src.pick(base[:6])} last; {d['k']} {inner}2 {b} *ptr; }};", [n]
            elif k == "selfref":
                text, names = f"struct {n} {{ {n} *next; {n} **prev[2]; struct {{ {n} *up; }} in; {d['k']} {b} own; }};", [n]
            elif k == "tanon":
                text, names = f"typedef {d['k']} {b} *{n};", [n]
            else:
                text, names = f"typedef {d['k']} {b} {n}[2];", [n]
            if k in ("tstruct", "multi", "selfref", "nested"):
                known.extend(names)
            extra.append(("text", text, names, {}))
        elif k == "oddname":
            odd = [src.pick(ODD) for _ in range(3)]
            odd = list(dict.fromkeys(odd))
            fields = " ".join(f"{src.pick(base[:6])} {x};" for x in odd)
            extra.append(("text", f"struct {n} {{ {fields} union {{ uint8 {src.pick([x for x in ODD if x not in odd])}; }}; }};\nenum {n}e {{ {', '.join(x for x in odd if not x.startswith('_') and x not in ('mro', 'type'))} , last{i} }};", [n, f"{n}e"], {}))
        elif k == "oddtype":
            o = src.pick([x for x in ODD if x not in ("int", "__init__", "__doc__", "__slots__", "mro")])
            text, names, cons = src.pick([(f"typedef uint16 {o};", [o], {}), (f"typedef struct {o} {{ uint8 a; }} {n};", [o, n], {}), (f"typedef struct {{ uint8 a; }} {o}, {n};", [o, n], {}), (f"enum {o} : uint8 {{ A, B }};\ntypedef {o} {n};\nstruct {n}s {{ {o} a; {o} *b[2]; }};", [o, n, f"{n}s"], {}), (f"struct {n} {{ struct {o} {{ uint8 a; }} b; struct {o}2 {{ uint8 a; }} c[2]; }};", [n], {}), (f"struct {o} {{ uint8 a; }};\nstruct {n} {{ {o} f; {o} *g; {o} h[2]; }};", [o, n], {}), (f"#define {o} 3", [], {o: 3}), (f"enum {{ {o} = 5 }};", [], {o: 5}) if o != "type" else (f"#define {o} 4", [], {o: 4})])
            if any(e[0] == "text" and (o in e[2] or o in e[3]) for e in extra):
                continue
            extra.append(("text", text, names, cons))
        elif k == "custom":
            extra.append(("custom", n, src.pick(["LEB128", "Int", "mine"]), src.bool()))
        else:
            tgt = src.pick(["uint32", "DWORD", *named])
            extra.append(("alias", n, tgt, src.bool()))
    return {"p": p, "extra": extra, "compiled": src.bool(), "split": src.bool(), "cls": src.pick(["cstruct", "_c", "_structs"]), "prefix": src.pick(["", "__cs__."])}


def loaded(c):
    """-> cstruct, constants, type names"""
    p = c["p"]
    consts = {n: v for n, v in p["consts"]}
    names = []
    for d in p["defs"]:
        names.append(d["n"])
        if d.get("style") == 2:
            names.append(f"_{d['n']}")
    cs = cstruct(endian=p["endian"], pointer=p["ptr"])
    text = prog_text(p)
    if c["split"]:
        cs.load(text, compiled=c["compiled"], align=p["align"])
        text = ""
    for e in c["extra"]:
        if e[0] == "text":
            text += e[1] + "\n"
            names += e[2]
            consts |= e[3]
            if c["split"]:
                cs.load(text, compiled=c["compiled"], align=p["align"])
                text = ""
            continue
        cs.load(text, compiled=c["compiled"], align=p["align"])
        text = ""
        names.append(e[1])
        if e[0] == "custom":
            if e[2] == "LEB128":
                cs.add_custom_type(e[1], types.LEB128, None, 1, signed=e[3])
            elif e[2] == "Int":
                cs.add_custom_type(e[1], types.Int, 5, 8, signed=e[3])
            else:
                cs.add_custom_type(e[1], Mine, 2, 2)
        else:
            cs.add_type(e[1], e[2] if e[3] else cs.resolve(e[2]))
    cs.load(text, compiled=c["compiled"], align=p["align"])
    return cs, consts, names


class Mine(types.BaseType):
    @classmethod
    def _read(cls, stream, context=None):
        return stream.read(2)


def run_set(c):
    p = c["p"]
    env = Env(p)
    cs, consts, names = loaded(c)
    text = stubgen.generate_cstruct_stub(cs, module_prefix=c["prefix"], cls_name=c["cls"])
    stub = Stub(text, cs, c["cls"], c["prefix"])
    stub.verify(consts, names)
    for d in p["defs"]:
        h = stub.declared(stub.names[d["n"]], stub.names, ())
        check(h[0] == "class", d["n"], "is", show(h))
        if d["k"] in ("struct", "union"):
            says_struct(stub, env, cs, d, h[1], d["n"])
        else:
            check(sorted(stub.scope(h[1])) == sorted({m for m, _ in d["m"]}), "members", sorted(stub.scope(h[1])), "defined", d["m"])
    # a second stub is the same, also of the same definitions loaded again
    check(stubgen.generate_cstruct_stub(cs, module_prefix=c["prefix"], cls_name=c["cls"]) == text, "a second stub differs")
    check(stubgen.generate_cstruct_stub(loaded(c)[0], c["prefix"], c["cls"]) == text, "the stub of the same definitions differs")
    return ["nontrivial"] if len(stub.names) > 3 else []


def show_set(c):
    return f"{ {k: v for k, v in c.items() if k not in ('p', 'extra')} }\n{prog_text(c['p'])}" + "\n".join(e[1] if e[0] == "text" else repr(e) for e in c["extra"])


# --- modules ---------------------------------------------------------------------------------------------------------
VARS = ["c_test", "cs", "structs", "C_X", "_hidden", "a", "cstruct_", "c2"]


def gen_file(src):
    sets = []
    for name in src.shuffle(VARS)[: src.int(1, 3)]:
        c = gen_set(src)
        c["extra"] = [e for e in c["extra"] if e[0] == "text" and "Literal" not in e[1] and "TypeAlias" not in e[1]]
        sets.append((name, c))
    return {"sets": sets, "empty": src.bool(1, 5), "how": src.int(0, 2), "deep": src.bool(1, 3)}


def run_file(c):
    lines = ["from dissect.cstruct import cstruct", "import struct", "x = 1", "def f():", "    return cstruct()"]
    for name, s in c["sets"]:
        p = s["p"]
        text = prog_text(p) + "".join(e[1] + "\n" for e in s["extra"])
        lines += [f"{name} = cstruct(endian={p['endian']!r}, pointer={p['ptr']!r})", f"{name}.load({text!r}, compiled={s['compiled']}, align={p['align']})"]
    if c["empty"]:
        lines.append("nothing = cstruct()")
    d = Path(tempfile.mkdtemp(prefix="c20-"))
    try:
        path = d / ("sub/dir/mod.py" if c["deep"] else "mod.py")
        path.parent.mkdir(parents=True, exist_ok=True)
        path.write_text("\n".join(lines) + "\n")
        (d / "other.py").write_text("y = 1\n")
        if c["how"] == 0:
            text = stubgen.generate_file_stub(path, d)
        else:
            # the command line tool, on a file and on a directory
            arg = path if c["how"] == 1 else d
            argv, sys.argv = sys.argv, ["cstruct-stubgen", str(arg)]
            try:
                with contextlib.redirect_stderr(io.StringIO()):
                    stubgen.main()
            finally:
                sys.argv = argv
            text = path.with_suffix(".pyi").read_text()
            check(not (d / "other.pyi").exists(), "a stub of a module without definitions")
            check(path.read_text() == "\n".join(lines) + "\n", "the module was changed")
    finally:
        shutil.rmtree(d)
    try:
        tree = ast.parse(text)
        compile(text, "<stub>", "exec", dont_inherit=True)
    except SyntaxError as e:
        raise Fail(f"not valid Python: {e}\n{text}") from None
    # what is declared at the top
    known = set()
    want = {n for n, _ in c["sets"]} | ({"nothing"} if c["empty"] else set())
    classes, aliases = {}, {}
    for n in tree.body:
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            known |= {a.asname or a.name for a in n.names}
        elif isinstance(n, ast.ClassDef):
            check(n.name not in classes, "declared twice:", n.name)
            classes[n.name] = n
        else:
            check(isinstance(n, ast.AnnAssign) and ast.unparse(n.annotation) == "TypeAlias" and isinstance(n.value, ast.Name), "unexpected", ast.unparse(n))
            aliases[n.target.id] = n.value.id
    check(set(aliases) == want, "instances", sorted(aliases), "expected", sorted(want))
    check(sorted(aliases.values()) == sorted(classes), "aliases", aliases, "classes", sorted(classes))
    for x in ast.walk(tree):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "__cs__":
            check(hasattr(top, x.attr), "no such name:", ast.unparse(x))
    for name in ("Literal", "TypeAlias", "overload", "BinaryIO", "__cs__"):
        check(name in known or name not in text, "not imported:", name)
    for name, s in c["sets"]:
        cs, consts, names = loaded(s)
        Stub(text, cs, aliases[name], "__cs__.").verify(consts, names)
    if c["empty"]:
        Stub(text, cstruct(), aliases["nothing"], "__cs__.").verify({}, [])
    return ["nontrivial", f"how{c['how']}"]


def show_file(c):
    return f"{ {k: v for k, v in c.items() if k != 'sets'} }\n" + "\n".join(f"--- {n}\n{show_set(s)}" for n, s in c["sets"])


def subs():
    return [
        Sub("sets", run_set, gen_set, quick=6000, thorough=400000, show=show_set),
        Sub("files", run_file, gen_file, quick=1500, thorough=60000, show=show_file),
    ]
