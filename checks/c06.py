"""C06: bit-fields partition their storage unit exactly, in endian-defined order."""

import io
import itertools

from dissect.cstruct import cstruct
from dissect.cstruct.types.structure import Field

from lib.common import *
from lib.gen import INTS
from lib.harness import Discard, Sub
from lib.model import ALIASES, SCALARS, canon, order
from lib.render import prog_text
from lib.src import Source, int_value

RULE = (
    "Exhaustive: every sequence of widths filling an 8-bit unit (and running into a second one) x all 256 contents; every "
    "straddling pair of widths for every storage type. Generated: bit-field structures over all storage types mixed with other "
    "members, parsed, dumped, assigned field by field. Non-trivial: at least two bit-fields in one unit."
)
ASSUMPTIONS = ["the oracle slices the bit string of a unit (most significant bit first in big endian, last first in little)"]


def units(fields):
    """Group [(storage, bits or None)] into [(storage, [(index, bits)])]; None entries are single members."""
    out = []
    for i, (u, b) in enumerate(fields):
        if b is None:
            out.append((u, None, [i]))
            continue
        size = SCALARS[u][1] * 8
        if out and out[-1][1] is not None and out[-1][0] == u and sum(w for _, w in out[-1][2]) < size:
            out[-1][2].append((i, b))
        else:
            out.append((u, True, [(i, b)]))
    return out


def slices(e, size, ws):
    """Bit strings -> function raw unit bytes -> values, and values -> bytes."""

    def split(raw):
        s = "".join(f"{x:08b}" for x in (raw if e != "<" else raw[::-1]))
        out, pos = [], 0
        for w in ws:
            out.append(int(s[pos : pos + w] if e != "<" else s[len(s) - pos - w : len(s) - pos], 2))
            pos += w
        return out

    def join(vs):
        s = ["0"] * (8 * size)
        pos = 0
        for w, v in zip(ws, vs):
            part = f"{v:0{w}b}"
            at = pos if e != "<" else 8 * size - pos - w
            s[at : at + w] = part
            pos += w
        raw = int("".join(s), 2).to_bytes(size, "big")
        return raw if e != "<" else raw[::-1]

    return split, join


# --- exhaustive 8-bit units ------------------------------------------------------------------------------------------
def compositions(total):
    """All sequences of positive integers with sum <= total."""
    yield from ((n,) for n in range(1, total + 1))
    for n in range(1, total):
        for rest in compositions(total - n):
            yield (n, *rest)


def comp_items(tier):
    for ws in compositions(8):
        for t in ("uint8", "int8", "E", "F", "char"):
            for e in "<>":
                yield {"ws": ws, "t": t, "e": e, "tail": (len(ws) * 7 + sum(ws)) % 4}


def run_comp(c):
    ws, e, tname = c["ws"], c["e"], c["t"]
    full = sum(ws) == 8
    if tname == "char" and (len(ws) > 4 or c["tail"] > 1):
        return []
    # what follows: nothing, another unit of the same type (only after a full one), another type, a plain member
    tail = {0: [], 1: [(tname, 3), (tname, 5)] if full else [], 2: [("uint16", 4)], 3: [("uint8", None)]}[c["tail"]]
    decl = "".join(f"{tname} f{i} : {w};" for i, w in enumerate(ws))
    decl += "".join(f"{t} g{i}{f' : {b}' if b else ''};" for i, (t, b) in enumerate(tail))
    text = f"enum E : uint8 {{ A, B = 5 }}; flag F : int8 {{ X, Y }}; struct T {{ {decl} }};"
    split, join = slices(e, 1, ws)
    extra = {0: b"", 1: b"\xa5" if full else b"", 2: b"\x5a\xc3", 3: b"\x77"}[c["tail"]]
    if c["tail"] == 1 and full:
        gv = slices(e, 1, (3, 5))[0](b"\xa5")
        ge = b"\xa5"
    elif c["tail"] == 2:
        gv = slices(e, 2, (4,))[0](extra)
        ge = slices(e, 2, (4,))[1](gv)
    elif c["tail"] == 3:
        gv, ge = [0x77], extra
    else:
        gv, ge = [], b""
    for compiled in (True, False):
        cs = cstruct(endian=e).load(text, compiled=compiled)
        T = cs.T
        n = 1 + len(extra)
        check(T.size == n and len(T) == n, "size", T.size, "expected", n)
        names = [f"f{i}" for i in range(len(ws))]
        for x in range(256):
            raw = bytes([x])
            vs = split(raw)
            o = T(raw + extra)
            got = [getattr(o, k) for k in names]
            check([int(v) for v in got] == vs, "unit", raw, "parsed", got, "expected", vs)
            check(all(0 <= int(v) < 1 << w for v, w in zip(got, ws)), "out of range", got)
            check([int(getattr(o, f"g{i}")) for i in range(len(tail))] == gv, "after the unit", o, gv)
            exp = join(vs) + ge
            check(o.dumps() == exp, "dumped", o.dumps(), "expected", exp)
            if tname in "EF":
                check(all(type(v) is getattr(cs, tname) for v in got), "types", got)
            b = T(**{k: v for k, v in zip(names, got)}, **{f"g{i}": T.fields[f"g{i}"].type(v) if tname in "EF" else v for i, v in enumerate(gv)})
            check(b.dumps() == exp, "built dumps", b.dumps(), "expected", exp)
    return ["nontrivial"] if len(ws) > 1 else []


# --- straddling ------------------------------------------------------------------------------------------------------
def straddle_items(tier):
    for u in INTS:
        bits = SCALARS[u][1] * 8
        for used in range(1, bits):
            cand = {bits - used + 1, bits - used + 2, bits}
            if tier == "thorough" or bits <= 16:
                cand |= set(range(bits - used + 1, bits + 1))
            for w in sorted(x for x in cand if bits - used < x <= bits):
                yield {"u": u, "pre": (used,), "w": w}
        for used in range(0, bits, 5):
            yield {"u": u, "pre": (used,) if used else (), "w": bits + 1}
        for a in range(1, bits - 1, 3):
            for b in range(1, bits - a, 4):
                yield {"u": u, "pre": (a, b), "w": bits - a - b + 1}


def run_straddle(c):
    u, pre, w = c["u"], c["pre"], c["w"]
    h = sum(pre) + w
    pair = [(u, u), ("E", u), (u, "E"), ("E", "E")][h % 4]
    fields = [(f"f{i}", pair[0], b) for i, b in enumerate(pre)] + [("z", pair[1], w)]
    decl = "".join(f"{t} {n} : {b};" for n, t, b in fields)
    lead = ["", "uint8 lead;", "char lead[];", "uint16 lead : 3;" if u != "uint16" else "uint32 lead : 3;"][h // 4 % 4]
    for compiled in (True, False):
        cs = cstruct(endian="<>"[h % 2])
        cs.load(f"enum E : {u} {{ A }};")
        expect(lambda: cs.load(f"struct T {{ {lead} {decl} }};", compiled=compiled, align=bool(h & 1)), ValueError)
    # the same through the programming interface
    cs = cstruct()
    t = getattr(cs, u)
    expect(lambda: cs._make_struct("T", [Field(n, t, bits=b) for n, _, b in fields]), ValueError)
    if pre:
        # one bit less fits exactly; a non-bit member in between makes room
        left = SCALARS[u][1] * 8 - sum(pre)
        ok = "".join(f"{u} f{i} : {b};" for i, b in enumerate(pre))
        cs = cstruct().load(f"struct A {{ {ok} {u} z : {left}; }}; struct B {{ {ok} uint8 m; {u} z : {min(w, SCALARS[u][1] * 8)}; }};")
        n = SCALARS[u][1]
        check(cs.A.size == n and cs.B.size == 2 * n + 1, "sizes", cs.A.size, cs.B.size, "expected", n, 2 * n + 1)
    return ["nontrivial"] if pre else []


# --- generated -------------------------------------------------------------------------------------------------------
STORAGE = [*INTS, "char"]


def gen_bits(src):
    e = src.pick("<>")
    align = src.bool(1, 3)
    fields = []
    n = src.int(1, 9)
    unit, left = None, 0
    while len(fields) < n:
        if src.bool(1, 6):
            fields.append([src.pick(["uint8", "uint16", "uint32", "char", "int24", "wchar", "uleb128", "z"]), None, 0])
            left = 0
            continue
        if left and src.bool(3, 4):
            u = unit
        else:
            u = src.pick(STORAGE)
            if u == unit and left:
                u = src.pick([x for x in INTS if x != unit])
            unit, left = u, SCALARS[u][1] * 8
        w = src.weighted([(2, 1), (2, left), (4, None), (1, left - 1)]) or src.int(1, left)
        spell = src.pick([x for x in ("", "E", "F", "alias")]) if u != "char" else ""
        fields.append([u, w, spell])
        left -= w
    return {"e": e, "align": align, "fields": fields, "vals": [src.int(0, 1 << 140) for _ in fields], "noise": src.int(0, 1 << 62),
            "over": [src.int(0, 3) for _ in fields], "where": src.int(0, 2)}  # fmt: skip


PLAIN = {"uint8": 1, "uint16": 2, "uint32": 4, "char": 1, "int24": 3, "wchar": 2}


def decl(fields):
    enums, out = {}, []
    for i, (u, w, spell) in enumerate(fields):
        t = u
        if u == "z":
            out.append(f"char f{i}[];")
            continue
        if w and spell in ("E", "F"):
            t = f"{spell}_{u}"
            enums[t] = f"{'enum' if spell == 'E' else 'flag'} {t} : {u} {{ A = 1, B = 2 }};\n"
        elif w and spell == "alias":
            t = next((a for a, b in ALIASES.items() if b == u), u)
        out.append(f"{t} f{i}{f' : {w}' if w else ''};")
    return "".join(enums.values()), " ".join(out)


def run_bits(c):
    e, fields = c["e"], c["fields"]
    enums, body = decl(fields)
    wrap = ["struct T { %s };", "struct T { uint8 pre; struct { %s }; uint8 post; };", "struct I { %s }; struct T { uint8 pre; I n; uint8 post; };"]
    align = c["align"]
    text = enums + wrap[c["where"]] % body
    # expected encoding
    storage = [(u, w) for u, w, _ in fields]
    al = max([1, *(1 if u == "z" else SCALARS[u][3] for u, _ in storage)]) if align else 1
    out, mask, vals = bytearray(), bytearray(), {}
    noise = c["noise"]

    def pad(to):
        mask.extend(b"\0" * (to - len(out)))
        out.extend(b"\0" * (to - len(out)))

    multi = False
    for u, isbits, members in units(storage):
        if isbits is None:
            i = members[0]
            if u == "uleb128" or u == "z":
                raw = {"uleb128": b"\x85\x01", "z": b"ab\0"}[u]
                vals[i] = 133 if u == "uleb128" else b"ab"
            else:
                raw = c["vals"][i].to_bytes(24, "little")[: PLAIN[u]]
                if u == "wchar":
                    raw = bytes([0x41, 0x42])
                    vals[i] = raw.decode("utf-16-le" if e == "<" else "utf-16-be")
                elif u == "char":
                    vals[i] = raw
                else:
                    vals[i] = int.from_bytes(raw, order(e), signed=u.startswith("int"))
                if align:
                    pad(-(-len(out) // SCALARS[u][3]) * SCALARS[u][3])
            out += raw
            mask += b"\xff" * len(raw)
            continue
        size = SCALARS[u][1]
        if align:
            pad(-(-len(out) // SCALARS[u][3]) * SCALARS[u][3])
        ws = [w for _, w in members]
        multi |= len(ws) > 1
        split, join = slices(e, size, ws)
        vs = [c["vals"][i] % (1 << w) for i, w in members]
        vals.update({i: v for (i, _), v in zip(members, vs)})
        out += join(vs)
        mask += join([(1 << w) - 1 for w in ws])
    pad(-(-len(out) // al) * al)
    raw, mask = bytes(out), bytes(mask)
    if c["where"]:
        raw = b"\x11" + b"\0" * (al - 1) + raw + b"\x22" + b"\0" * (al - 1)
        mask = b"\xff" + b"\0" * (al - 1) + mask + b"\xff" + b"\0" * (al - 1)
    ns = Source(seed=noise)
    data = dirty(ns, raw, mask)
    for compiled in (True, False):
        cs = cstruct(endian=e).load(text, compiled=compiled, align=align)
        T = cs.T
        fh = io.BytesIO(data + b"\xff\xff")
        o = T.read(fh)
        check(fh.tell() == len(raw), "consumed", fh.tell(), "expected", len(raw))
        h = o.n if c["where"] == 2 else o
        for i, (u, w, spell) in enumerate(fields):
            got = getattr(h, f"f{i}")
            exp = vals[i]
            check(got == exp if not w else int(got) == exp, f"f{i} : {w}", "parsed", repr(got), "expected", exp, "compiled", compiled)
            if w:
                check(0 <= int(got) < 1 << w, f"f{i}", "out of range", got)
        check(o.dumps() == raw, "dumped", o.dumps(), "expected", raw, "compiled", compiled)
        # assignment of one field changes its bits only
        for i, (u, w, spell) in enumerate(fields):
            if not w:
                continue
            new = (c["vals"][(i + 1) % len(fields)] >> 3) % (1 << w)
            o = T(data)
            h = o.n if c["where"] == 2 else o
            kind = (lambda x: getattr(cs, f"{spell}_{u}")(x)) if spell in ("E", "F") else int  # noqa: B023
            setattr(h, f"f{i}", kind(new))
            exp = rebits(e, storage, raw, i, new, align, c["where"], al, vals)
            check(o.dumps() == exp, f"after f{i} =", new, "dumped", o.dumps(), "expected", exp, "compiled", compiled)
            back = T(exp)
            hb = back.n if c["where"] == 2 else back
            check(int(getattr(hb, f"f{i}")) == new, "read back", back)
            # a value that does not fit never reaches other fields
            bad = [1 << w, -1, (1 << w) + 1, -(1 << w)][c["over"][i]]
            try:
                setattr(h, f"f{i}", kind(bad))
                d = o.dumps()
            except Exception:
                continue
            m = rebits(e, storage, bytes(len(raw)), i, (1 << w) - 1, align, c["where"], al, vals)
            check(len(d) == len(raw) and all((x ^ y) & ~z & 255 == 0 for x, y, z in zip(d, raw, m)),
                  f"f{i} =", bad, "changed other bits", d, "from", raw)  # fmt: skip
    labels = ["nontrivial"] if multi else []
    return [*labels, "aligned" if align else "packed", e]


def rebits(e, storage, raw, index, value, align, where, al, vals):
    """raw with the bits of one field replaced."""
    out = bytearray(raw)
    base = al if where else 0
    pos = 0
    for u, isbits, members in units(storage):
        size = SCALARS[u][1] if u not in ("uleb128", "z") else {"uleb128": 2, "z": 3}[u]
        if align and u not in ("uleb128", "z"):
            pos = -(-pos // SCALARS[u][3]) * SCALARS[u][3]
        if isbits and any(i == index for i, _ in members):
            split, join = slices(e, size, [w for _, w in members])
            at = base + pos
            old = split(bytes(out[at : at + size]))
            new = [value if i == index else x for (i, _), x in zip(members, old)]
            keep = join([(1 << w) - 1 for _, w in members])
            unit = bytes(x & ~k & 255 for x, k in zip(out[at : at + size], keep))
            out[at : at + size] = bytes(x | y for x, y in zip(unit, join(new)))
            return bytes(out)
        pos += size
    raise AssertionError


def run_model(c):
    """Bit-field programs of the general generator against the reference model."""
    p, v = c["p"], c["v"]
    env = Env(p)
    raw, mask = env.dumps(TOP, v)
    data = dirty(Source(seed=c["noise"]), raw, mask)
    for compiled, cs, T in modes(p):
        fh = io.BytesIO(data)
        o = T.read(fh)
        check(same(norm(env, TOP, o), v), "parsed", norm(env, TOP, o), "expected", v, "compiled", compiled)
        check(fh.tell() == len(raw), "consumed", fh.tell(), "expected", len(raw))
        check(o.dumps() == raw, "dumped", o.dumps(), "expected", raw)
        b = build(env, T, TOP, v)
        check(b.dumps() == raw, "built dumps", b.dumps(), "expected", raw)
    labels = feats(env)
    return [*labels, "nontrivial"] if "bits" in labels else labels


def gen_model(src):
    p, env, v, raw, mask = prog_value(src, Opt(mixed=True, unions=False, eof=False, maxfields=8))
    return {"p": p, "v": v, "noise": src.int(0, 1 << 60)}


def subs():
    return [
        Sub("unit8", run_comp, items=comp_items, rule="all width sequences in 8-bit units x 5 storage types x byte order x all contents"),
        Sub("straddle", run_straddle, items=straddle_items, rule="every storage type, straddling widths"),
        Sub("bits", run_bits, gen_bits, quick=8000, thorough=400000),
        Sub("model", run_model, gen_model, quick=3000, thorough=100000, show=show_case),
    ]
