"""C06: the binary image encodes exactly the fixed values."""
import struct

from symapg import asn, core, oracle, world
from symapg.asn import H
from symapg.core import land

ORDERS = ("little-endian", "big-endian")


def field(S, tag, kinds):
    """(type, signed, bytes) of a field that is a whole number of bytes."""
    k = S.pick("type " + tag, kinds)
    if k == "f":
        return asn.real(S, -3.0e38, 3.0e38), "f", 4
    if k == "d":
        return asn.real(S, -1.0e300, 1.0e300), "d", 8
    n = int(k[1:])
    if k[0] == "u":
        return asn.integer(S, 0, (1 << n) - 1), "u", n // 8
    return asn.integer(S, -(1 << (n - 1)), (1 << (n - 1)) - 1), "s", n // 8


def any_value(S, tag, form):
    if form in "fd":
        return S.float(tag)
    return S.int(tag, -(1 << 66), 1 << 66)


def representable(v, form, n):
    if form == "u":
        return land(v >= 0, v <= (1 << (8 * n)) - 1)
    if form == "s":
        return land(v >= -(1 << (8 * n - 1)), v <= (1 << (8 * n - 1)) - 1)
    return True


def check_bytes(S, got, v, form, n, order):
    """got: n bytes that have to encode v."""
    if form in "us":
        seq = list(got)
        if order == "big-endian":
            seq.reverse()
        total = 0
        for i, b in enumerate(seq):
            total = total + b * (1 << (8 * i))
        want = v
        if form == "s" and S.truth(v < 0):
            want = v + (1 << (8 * n))
        S.check(total == want, "bytes of an integer")
        return
    fmt = ("<" if order == "little-endian" else ">") + form
    if isinstance(v, float) and not S.symbolic:
        want = struct.pack(fmt, v)
    else:
        want = core.sym_struct_pack(fmt, v)
    S.check(want == got, "bytes of a real")


def image(S, r, name):
    b = S.file(r, name)
    if b is None or isinstance(b, str):
        S.fail("missing image")
    return b


def slices(S, b, sizes):
    S.check(len(b) == sum(sizes), "size of the image")
    out, i = [], 0
    for n in sizes:
        out.append(b[i : i + n])
        i += n
    return out


def one_int(S):
    """One value: every value, every declared range."""
    lo, hi = S.int("lo", -(1 << 65), 1 << 65), S.int("hi", -(1 << 65), 1 << 65)
    S.assume(lo <= hi)
    v = S.int("value", -(1 << 66), 1 << 66)
    order = S.pick("order", ORDERS)
    pay = asn.sequence(S, "Pay", [asn.member(S, "val", asn.integer(S, lo, hi))])
    msg = asn.sequence(
        S, "Msg-a", [asn.member(S, "pay", asn.ref(S, pay), [("val", v)])]
    )
    r = asn.run(
        S, "binary", [("m", asn.module(S, "m", [pay, msg]))], endianness=order
    )
    if S.truth(lo >= 0):
        form, n = "u", None
        for k in (1, 2, 4, 8):
            top = (1 << (8 * k)) - 1
            if S.truth(land(hi <= top, hi > top >> 1)):
                n = k
    else:
        form, n = "s", None
        for k in (8, 4, 2, 1):
            h = 1 << (8 * k - 1)
            if S.truth(land(lo >= -h, hi <= h - 1)):
                n = k
    if n is None:
        S.cover("no whole bytes")
        S.check(r.rejected, "field that is no whole number of bytes")
        return
    if not S.truth(representable(v, form, n)):
        S.cover("unrepresentable")
        S.check(r.rejected, "unrepresentable value is encoded")
        return
    S.check(r.ok, "representable value is rejected")
    (g,) = slices(S, image(S, r, "msg_a.bin"), [n])
    check_bytes(S, g, v, form, n, order)
    S.cover(form)


def one_real(S):
    form = S.pick("type", "fd")
    t, form, n = (
        (asn.real(S, -3.0e38, 3.0e38), "f", 4)
        if form == "f"
        else (asn.real(S, -1.0e300, 1.0e300), "d", 8)
    )
    kind = S.pick("literal", ("real", "whole"))
    v = S.float("value") if kind == "real" else S.int("value", -5, 1 << 20)
    order = S.pick("order", ORDERS)
    pay = asn.sequence(S, "Pay", [asn.member(S, "val", t)])
    msg = asn.sequence(
        S, "Msg-a", [asn.member(S, "pay", asn.ref(S, pay), [("val", v)])]
    )
    r = asn.run(
        S, "binary", [("m", asn.module(S, "m", [pay, msg]))], endianness=order
    )
    if kind == "whole":
        v = v * 1.0
    top = float.fromhex("0x1.ffffffp+127")  # rounds to infinity
    if form == "f" and not S.truth(land(v < top, v > -top)):
        S.cover("too large")
        S.check(r.rejected, "value too large for a float is encoded")
        return
    S.check(r.ok, "representable value is rejected")
    (g,) = slices(S, image(S, r, "msg_a.bin"), [n])
    check_bytes(S, g, v, form, n, order)
    S.cover(form)


def wrong_kind(S):
    """BOOLEAN values, and reals for integers, are not supported."""
    k = S.pick("kind", ("bool", "real for int", "bits", "string"))
    t = {
        "bool": asn.boolean(S),
        "real for int": asn.integer(S, 0, 255),
        "bits": asn.integer(S, 0, S.int("hi", 0, 127)),
        "string": asn.string(S, 4),
    }[k]
    v = {"bool": True, "real for int": S.float("x"), "bits": 1, "string": 7}[k]
    pay = asn.sequence(
        S,
        "Pay",
        [asn.member(S, "fine", asn.integer(S, 0, 255)), asn.member(S, "val", t)],
    )
    msg = asn.sequence(
        S,
        "Msg",
        [asn.member(S, "pay", asn.ref(S, pay), [("fine", 1), ("val", v)])],
    )
    r = asn.run(
        S,
        "binary",
        [("m", asn.module(S, "m", [pay, msg]))],
        endianness=S.pick("order", ORDERS),
    )
    S.check(r.rejected, "unsupported value is encoded")
    S.cover(k)


def many(kinds, shape):
    """Several values, structures, members and messages."""

    def h(S):
        order = S.pick("order", ORDERS)
        fs = [field(S, str(i), kinds[i]) for i in range(3)]
        vals = []

        def value(i, tag):
            t, form, n = fs[i]
            v = any_value(S, tag, form)
            if form == "f":
                S.assume(land(v >= -3.0e38, v <= 3.0e38))
            else:
                S.assume(representable(v, form, n))
            return v, form, n

        sub = asn.sequence(
            S, "Sub", [asn.member(S, "x", fs[1][0]), asn.member(S, "y", fs[2][0])]
        )
        pay = asn.sequence(
            S,
            "Pay",
            [
                asn.member(S, "a", fs[0][0]),
                asn.member(S, "sub", asn.ref(S, sub)),
                asn.member(S, "z", fs[0][0]),
            ],
        )
        want = []
        x, y = value(1, "x"), value(2, "y")
        a, z = value(0, "a"), value(0, "z")
        inner = [("x", x[0])] + ([("y", y[0])] if shape != "partial" else [])
        comps = [("a", a[0]), ("sub", inner)]
        want = [a, x] + ([y] if shape != "partial" else [])
        if shape != "partial":
            comps.append(("z", z[0]))
            want.append(z)
        members = [
            asn.member(S, "gap", asn.integer(S, 0, 3)),
            asn.member(S, "pay", asn.ref(S, pay), comps),
        ]
        if shape == "two members":
            y2 = value(2, "y2")
            members.append(asn.member(S, "sub", asn.ref(S, sub), [("y", y2[0])]))
            want.append(y2)
        msg = asn.sequence(S, "Msg-one", members)
        defs = [sub, pay, msg]
        others = []
        if shape == "two messages":
            x3 = value(1, "x3")
            other = asn.sequence(
                S, "Second", [asn.member(S, "sub", asn.ref(S, sub), [("x", x3[0])])]
            )
            others = [(other, [x3])]
            defs = [other] + defs if S.flag("first") else defs + [other]
        r = asn.run(
            S, "binary", [("m", asn.module(S, "m", defs))], endianness=order
        )
        S.check(r.ok, "representable values are rejected")
        for name, ws in [("msg_one.bin", want)] + (
            [("second.bin", others[0][1])] if others else []
        ):
            parts = slices(S, image(S, r, name), [w[2] for w in ws])
            for g, (v, form, n) in zip(parts, ws):
                check_bytes(S, g, v, form, n, order)
        images = [k for k in r.files if k.endswith(".bin")]
        S.check(len(images) == 1 + len(others), "number of images")
        for d in (sub, pay, msg):
            oracle.check_struct(S, S.c(r, "m.h"), d)
        S.cover(order)

    return h


FORMS = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, (1 << 32) - 1), "s8": (-128, 127), "s16": (-32768, 32767), "s64": (-(1 << 63), (1 << 63) - 1)}


def deep(S):
    """Values at every level of a nested structure."""
    order = S.pick("order", ORDERS)

    def seq(name, *ms):
        return asn.sequence(
            S, name, [asn.member(S, k, asn.integer(S, *FORMS[t]) if t in FORMS else asn.ref(S, t)) for k, t in ms]
        )

    lo = seq("Low", ("a", "u8"), ("b", "u16"), ("c", "s8"))
    mid = seq("Mid", ("p", "s16"), ("l", lo), ("q", "u8"), ("k", lo))
    up = seq("Up", ("r", "u8"), ("m", mid), ("l", lo), ("s", "u32"))
    top = seq("Top", ("g", "s64"), ("u", up), ("h", "u8"))
    want = []

    def fix(d, keys, tag):
        out = []
        for k, t, _, _ in d.members:
            if k not in keys:
                continue
            if isinstance(keys, dict) and keys[k]:
                out.append((k, fix({"l": lo, "k": lo, "m": mid, "u": up}[k], keys[k], tag + k)))
            else:
                v = S.int("value " + tag + k, t.lo, t.hi)
                form = "s" if t.lo < 0 else "u"
                want.append((v, form, (t.hi - t.lo).bit_length() // 8))
                out.append((k, v))
        return out

    low = {"a": 0, "b": 0, "c": 0}
    shape = S.pick(
        "fixed",
        (
            {"g": 0, "u": {"r": 0, "m": {"p": 0, "l": low, "q": 0, "k": low}, "l": low, "s": 0}, "h": 0},
            {"u": {"m": {"p": 0, "l": {"b": 0, "c": 0}}}},
            {"u": {"m": {"l": low, "q": 0, "k": {"a": 0, "c": 0}}, "s": 0}, "h": 0},
            {"g": 0, "u": {"m": {"k": {"b": 0, "c": 0}}, "l": {"a": 0, "b": 0}}},
        ),
    )
    comps = fix(top, shape, "")
    n = len(want)
    again = fix(lo, low, "again ")
    ms = [asn.member(S, "t", asn.ref(S, top), comps), asn.member(S, "x", asn.ref(S, lo), again)]
    if S.flag("other order"):
        ms.reverse()
        want = want[n:] + want[:n]
    msg = asn.sequence(S, "Msg", ms)
    defs = [lo, mid, up, top, msg]
    if S.flag("definitions in reverse"):
        defs.reverse()
    r = asn.run(S, "binary", [("m", asn.module(S, "m", defs))], endianness=order)
    S.check(r.ok, "representable values are rejected")
    parts = slices(S, image(S, r, "msg.bin"), [w[2] for w in want])
    for g, (v, form, n) in zip(parts, want):
        check_bytes(S, g, v, form, n, order)
    S.cover(order)


def images(S, w, r, order="big-endian"):
    got = [k for k in r.files if k.endswith(".bin")]
    S.check(len(got) == len(w.images), "number of images")
    for role, want in w.images.items():
        name = oracle.lowerized(oracle.cname(w.by[role].name)) + ".bin"
        parts = slices(S, image(S, r, name), [n for _, n, _ in want])
        for g, (form, n, v) in zip(parts, want):
            check_bytes(S, g, v, form, n, order)


def little(S, w, r):
    r = w.run(endianness="little-endian")
    S.check(r.ok, "valid bundle is rejected")
    images(S, w, r, "little-endian")


def harnesses(tier):
    q = tier == "quick"
    full = ("u8", "u16", "u32", "u64", "s8", "s16", "s32", "s64", "f", "d")
    kinds = [("u8", "s32", "u64"), ("u16", "s8"), ("s64", "u32", "d", "f", "s16")] if q else [full] * 3
    out = [
        H("int", one_int, "one integer, every declared range in [-2^65,2^65], every value in [-2^66,2^66]", cover=("u", "s", "no whole bytes", "unrepresentable")),
        H("real", one_real, "one REAL, every finite double, and integers up to 2^20", cover=("f", "d", "too large")),
        H("unsupported", wrong_kind, "BOOLEAN, string and partial-byte fields, real for an integer", cover=("bool", "real for int", "bits", "string")),
    ]
    out.append(H("deep", deep, "fixed values at every level of structures nested four deep, every value", cover=ORDERS))
    out += world.harnesses(("binary",), images)
    for x in world.harnesses(("binary",), little, schemes=("plain", "dashes", "big") if q else None):
        x.name += "-little"
        out.append(x)
    for shape in ("full", "partial", "two members", "two messages"):
        out.append(
            H(
                shape.replace(" ", "-"),
                many(kinds, shape),
                "three field types out of %s, every representable value" % (kinds,),
                cover=ORDERS,
            )
        )
    return out
