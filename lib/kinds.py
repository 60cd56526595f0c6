"""Exhaustive enumeration: all sequences of a small alphabet of field kinds, in every mode, with fixed pseudo random values."""

from __future__ import annotations

import itertools

from lib.common import TOP
from lib.gen import dirty, gen_value
from lib.model import Env, Reject
from lib.src import Source

S = {"k": "struct", "n": "S", "f": [{"n": "p", "t": ("s", "uint8"), "b": None}, {"n": "q", "t": ("s", "uint32"), "b": None}]}
U = {"k": "union", "n": "U", "f": [{"n": "p", "t": ("s", "uint16"), "b": None},
                                   {"n": "q", "t": ("arr", ("s", "char"), ("n", 3)), "b": None}]}  # fmt: skip
EN = {"k": "enum", "n": "E", "u": "uint16", "m": [("M0", None), ("M1", None)]}
DEFS = [EN, S, U]

KINDS = {
    "u8": ("s", "uint8"), "i16": ("s", "int16"), "i24": ("s", "int24"), "u32": ("s", "uint32"), "u64": ("s", "uint64"),
    "c": ("s", "char"), "w": ("s", "wchar"), "c3": ("arr", ("s", "char"), ("n", 3)),
    "u16x2": ("arr", ("s", "uint16"), ("n", 2)), "u32x0": ("arr", ("s", "uint32"), ("n", 0)),
    "cz": ("arr", ("s", "char"), ("z",)), "u16z": ("arr", ("s", "uint16"), ("z",)), "leb": ("s", "uleb128"),
    "E": ("enum", "E"), "p": ("ptr", ("s", "uint8")), "S": ("st", "S"), "Sx2": ("arr", ("st", "S"), ("n", 2)),
    "U": ("st", "U"), "b3": (("s", "uint8"), 3), "b8": (("s", "uint8"), 8), "b9": (("s", "uint16"), 9),
    "B5": (("s", "uint32"), 5), "Eb4": (("enum", "E"), 4), "f": ("s", "float"),
}  # fmt: skip


def prog(kinds, endian, align, ptr="uint16"):
    fields = []
    for i, k in enumerate(kinds):
        t = KINDS[k]
        bits = None
        if isinstance(t[0], tuple):
            t, bits = t
        fields.append({"n": f"f{i}", "t": t, "b": bits})
    return {"endian": endian, "align": align, "ptr": ptr, "consts": [], "defs": [*DEFS, {"k": "struct", "n": "T", "f": fields}]}


def items(tier, length=3):
    length = length + (tier == "thorough")
    for n in range(1, length + 1):
        for kinds in itertools.product(KINDS, repeat=n):
            for endian in "<>":
                for align in (False, True):
                    yield {"kinds": kinds, "endian": endian, "align": align}


def case(c):
    """-> program, environment, value, encoding, mask, dirty bytes"""
    p = prog(c["kinds"], c["endian"], c["align"])
    env = Env(p)
    src = Source(seed=repr(c))
    v = gen_value(src, env, TOP)
    raw, mask = env.dumps(TOP, v)
    return p, env, v, raw, mask, dirty(src, raw, mask)
