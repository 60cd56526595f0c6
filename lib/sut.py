"""Adapter to the code under test: only documented entry points and attributes are used."""

from __future__ import annotations

import io

from dissect.cstruct import cstruct

from lib.model import SCALARS, canon
from lib.render import def_text, prog_text


class Fail(Exception):
    """The property does not hold for this case."""


def check(cond, *msg):
    if not cond:
        raise Fail(" ".join(str(m) for m in msg))


def load(prog, compiled, text=None):
    cs = cstruct(endian=prog["endian"], pointer=prog["ptr"])
    if text is None and any("al" in d for d in prog["defs"]):
        # every definition in a mode of its own
        cs.load(prog_text({**prog, "defs": []}))
        for d in prog["defs"]:
            cs.load(def_text(d), compiled=compiled ^ d.get("mc", False), align=d.get("al", prog["align"]))
        return cs
    return cs.load(prog_text(prog) if text is None else text, compiled=compiled, align=prog["align"])


def norm(env, t, o, bits=None):
    """Value of the code under test -> model value."""
    k = t[0]
    if bits or k in ("enum", "flag", "ptr"):
        check(isinstance(o, int), "not an integer:", repr(o), "for", t)
        if k in ("enum", "flag"):
            check(type(o).__name__ == t[1], "not a", t[1], ":", repr(o))
            check(o.value == int(o), "enum value differs from its integer value:", repr(o))
            return int(o.value)
        return int(o)
    if k == "s":
        kind = SCALARS[canon(t[1])][0]
        if kind in ("int", "leb"):
            check(isinstance(o, int), "not an integer:", repr(o))
            return int(o)
        if kind == "float":
            check(isinstance(o, float), "not a float:", repr(o))
            return float(o)
        if kind == "char":
            check(isinstance(o, bytes), "not bytes:", repr(o))
            return bytes(o)
        if kind == "wchar":
            check(isinstance(o, str), "not a string:", repr(o))
            return str.__str__(o)
        return None
    if k == "arr":
        if env.is_char(t[1]):
            check(isinstance(o, bytes), "not bytes:", repr(o))
            return bytes(o)
        if env.is_wchar(t[1]):
            check(isinstance(o, str), "not a string:", repr(o))
            return str.__str__(o)
        check(isinstance(o, list), "not a list:", repr(o))
        return [norm(env, t[1], x) for x in o]
    return norm_struct(env, env.sdef(t), o)


def norm_struct(env, d, o):
    out = {}
    for i, f in enumerate(d["f"]):
        if f["n"] is None:
            # fields of anonymous members are reached through the outer structure
            out[env.key(d, i)] = norm_struct(env, env.sdef(f["t"]), o)
        else:
            out[f["n"]] = norm(env, f["t"], getattr(o, f["n"]), f.get("b"))
    return out


def unnorm(env, cls, t, v, bits=None):
    """Model value -> value for the code under test; ``cls`` is the class of the code under test for t."""
    k = t[0]
    if k in ("enum", "flag"):
        return cls(v)
    if bits or k in ("s", "ptr"):
        return v
    if k == "arr":
        if env.is_char(t[1]) or env.is_wchar(t[1]):
            return v
        return [unnorm(env, cls.type, t[1], x) for x in v]
    d = env.sdef(t)
    if d["k"] == "union":
        return cls(v["#raw"])
    return build(env, cls, t, v)


def flat_fields(env, d, v=None):
    """(name, field, value) of all fields reachable by name, including those of anonymous members."""
    for i, f in enumerate(d["f"]):
        x = None if v is None else v[env.key(d, i)]
        if f["n"] is None:
            yield from flat_fields(env, env.sdef(f["t"]), x)
        else:
            yield f["n"], f, x


def has_anon_union(env, d):
    return any(
        f["n"] is None and (env.sdef(f["t"])["k"] == "union" or has_anon_union(env, env.sdef(f["t"]))) for f in d["f"]
    )


def build(env, cls, t, v):
    """Instance of a structure by assignment on a default instance (anonymous unions: the longest member)."""
    d = env.sdef(t)
    obj = cls()
    assign(env, cls, d, v, obj)
    return obj


def assign(env, cls, d, v, obj):
    for i, f in enumerate(d["f"]):
        x = v[env.key(d, i)]
        if f["n"] is not None:
            setattr(obj, f["n"], unnorm(env, cls.fields[f["n"]].type, f["t"], x, f.get("b")))
            continue
        inner = env.sdef(f["t"])
        assign(env, cls, inner, x, obj)


def dump(obj):
    return obj.dumps()


def read_all(T, data, pos=0):
    """-> (object, stream position after)"""
    fh = io.BytesIO(data)
    fh.seek(pos)
    obj = T.read(fh)
    return obj, fh.tell()
