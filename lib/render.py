"""AST -> definition text."""

from __future__ import annotations

from lib.model import expr_text


def base_and_decl(t, name):
    """-> (type text or definition, declarator text)"""
    dims = ""
    while t[0] == "arr":
        ln = t[2]
        if ln[0] == "n":
            dims += f"[{expr_text(ln[2]) if len(ln) > 2 else ln[1]}]"
        elif ln[0] == "e":
            dims += f"[{expr_text(ln[1])}]"
        elif ln[0] == "z":
            dims += "[]"
        else:
            dims += "[EOF]"
        t = t[1]
    stars = ""
    while t[0] == "ptr":
        stars += "*"
        t = t[1]
    return t, f"{stars}{name}{dims}"


def field_text(f, ind):
    t, decl = base_and_decl(f["t"], f["n"] or "")
    if t[0] == "arr":
        head = t[3]  # pointer to an array, by the name of a typedef
    elif t[0] == "inl":
        tag = f"{t[1]['tag']} " if t[1].get("tag") else ""
        head = f"{t[1]['k']} {tag}{body(t[1], ind)}"
    elif t[0] == "st" and t[2:] == ("struct",):
        head = f"struct {t[1]}"
    else:
        head = t[1]
    if f["n"] is None:
        return f"{ind}{head};"
    bits = f" : {f['b']}" if f.get("b") else ""
    return f"{ind}{head} {decl}{bits};"


def body(d, ind=""):
    lines = [field_text(f, ind + "    ") for f in d["f"]]
    return "{\n" + "".join(x + "\n" for x in lines) + ind + "}"


def def_text(d):
    if d["k"] in ("enum", "flag"):
        members = ",\n".join(f"    {n}" if e is None else f"    {n} = {expr_text(e)}" for n, e in d["m"])
        return f"{d['k']} {d['n']} : {d['u']} {{\n{members}\n}};"
    style = d.get("style", 0)
    if style == 1:
        return f"typedef {d['k']} {body(d)} {d['n']};"
    if style == 2:
        return f"typedef {d['k']} _{d['n']} {body(d)} {d['n']};"
    return f"{d['k']} {d['n']} {body(d)};"


def prog_text(p):
    out = [f"#define {n} {v}" for n, v in p["consts"]]
    out += [f"typedef {field_text({'n': n, 't': t[:3]}, '')}" for n, t in p.get("tds", ())]
    out += [def_text(d) for d in p["defs"]]
    return "\n".join(out) + "\n"
