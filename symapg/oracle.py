"""What the generated types have to be (specification side)."""
import re

from .core import implies, land, lnot, lor

UINT = ("uint8_t", "uint16_t", "uint32_t", "uint64_t")
INT = ("int8_t", "int16_t", "int32_t", "int64_t")


def decode_type(S, m):
    """(signed, storage bits, width) of an integer member."""
    t = S.conc(m.ctype)
    if t not in UINT + INT:
        S.fail("integer member has the type of something else")
    n = int(re.search(r"\d+", t).group(0))
    w = n if m.width is None else S.small(m.width, "bit-field width")
    S.check(0 < w <= n, "bit-field wider than its type")
    return t in INT, n, w


def check_int(S, m, lo, hi):
    """The declared range fits, and the type is the smallest one."""
    S.check(m.array is None, "integer member is an array")
    signed, n, w = decode_type(S, m)
    if S.truth(lo >= 0):
        S.check(not signed, "signed type for a non-negative range")
        S.check(hi <= (1 << w) - 1, "upper bound does not fit")
        if w > 1:
            S.check(hi >= 1 << (w - 1), "more bits than needed")
        S.check(n == 8 or w > n // 2, "storage type larger than needed")
    else:
        S.check(signed, "unsigned type for a range with negative values")
        S.check(w == n, "signed bit-field")
        S.check(
            land(lo >= -(1 << (n - 1)), hi <= (1 << (n - 1)) - 1),
            "range does not fit",
        )
        if n > 8:
            h = n // 2
            S.check(
                lor(lo < -(1 << (h - 1)), hi > (1 << (h - 1)) - 1),
                "storage type larger than needed",
            )


def int_supported(lo, hi):
    """The ranges a 64-bit type can hold."""
    return land(
        hi >= lo,
        lor(
            land(lo >= 0, hi <= (1 << 64) - 1),
            land(lo < 0, lo >= -(1 << 63), hi <= (1 << 63) - 1),
        ),
    )


def bits(v):
    return max(1, int(v).bit_length())


# --------------------------------------------------------------------------
# members and structures
# --------------------------------------------------------------------------

FLT = 3.4e38


def cname(s):
    """The C identifier of an ASN.1 name."""
    from . import core

    if core.has_tok(s):
        return "".join(
            core.ch_map(c, lambda x: "_" if x == "-" else x, "cname") for c in s
        )
    return s.replace("-", "_")


def upper(s):
    from . import core

    if core.has_tok(s):
        return "".join(core.ch_map(c, str.upper, "upper") for c in s)
    return s.upper()


def lowerized(s):
    from . import core

    c = s[0]
    if core.has_tok(c):
        return core.ch_map(c, str.lower, "lower") + s[1:]
    return c.lower() + s[1:]


def is_float(lo, hi):
    return land(lo >= -FLT, hi <= FLT)


def check_member(S, m, key, t):
    """A C member against a declared member."""
    from . import asn

    S.check(S.eq(m.name, cname(key)), "member name or order")
    r = asn.resolve(t)
    if r.kind == "int":
        check_int(S, m, r.lo, r.hi)
        return
    if r.kind == "bool":
        S.check(
            m.array is None
            and S.eq(m.ctype, "uint8_t")
            and m.width is not None
            and S.small(m.width, "width") == 1,
            "BOOLEAN member is not one bit",
        )
        return
    if r.kind == "real":
        S.check(m.array is None and m.width is None, "REAL member has a width")
        want = "float" if S.truth(is_float(r.lo, r.hi)) else "double"
        S.check(S.eq(m.ctype, want), "REAL member is not a " + want)
        return
    if r.kind == "string":
        S.check(
            S.eq(m.ctype, "char") and m.width is None and m.array is not None,
            "string member is not a char array",
        )
        S.check(
            S.intval(m.array, "array length") == r.length, "string length"
        )
        return
    if r.kind == "array":
        S.check(m.array is not None, "array member is not an array")
        S.check(S.intval(m.array, "array length") == r.length, "array length")
        from .cread import Node

        e = Node(
            ctype=m.ctype, name=m.name, width=m.width, array=None, comments=[]
        )
        check_member(S, e, key, r.elem)
        return
    S.check(m.array is None, "member is an array")
    S.check(S.eq(m.ctype, cname(r.target.name)), "member type name")
    if r.kind == "enum":
        n = len(r.target.items)
        S.check(
            m.width is not None and S.small(m.width, "width") == bits(n - 1),
            "ENUMERATED member width",
        )
    else:
        S.check(m.width is None, "structure member has a width")


def find(S, decls, name):
    """The only declaration of a name."""
    hits = [d for d in decls if S.truth(S.eq(d.name, name))]
    S.check(len(hits) == 1, "type is not defined exactly once")
    return hits[0]


def check_struct(S, f, d):
    """A generated structure against its SEQUENCE."""
    st = find(S, f.decls, cname(d.name))
    S.check(st.kind == "struct" and st.packed == "packed", "packed struct")
    S.check(len(st.members) == len(d.members), "number of members")
    for m, (key, t, wc, cm) in zip(st.members, d.members):
        check_member(S, m, key, t)
    return st


def check_enum(S, f, d, order=None):
    en = find(S, f.decls, cname(d.name))
    S.check(en.kind == "enum" and en.packed == "packed", "packed enum")
    return en


# --------------------------------------------------------------------------
# COSMOS items
# --------------------------------------------------------------------------


class Leaf:
    def __init__(self, key, typ, fixed, comment, path, declared):
        self.key, self.typ, self.fixed = key, typ, fixed
        self.declared = declared
        self.comment, self.path = comment, path


NOTHING = object()


def flatten(d, wc=None, path=()):
    """The fields of a message in order; wc: fixed values from outside."""
    from . import asn

    out = []
    for key, t, own, cm in d.members:
        r = asn.resolve(t)
        inner = []
        given = NOTHING
        for k, v in wc or []:
            if k == key:
                given = v
        if isinstance(given, list):
            inner = given
        if r.kind == "seq":
            out.extend(flatten(r.target, (own or []) + inner, path + (key,)))
        else:
            out.append(Leaf(key, r, given, cm, path + (key,), t))
    return out


def check_item(S, it, leaf):
    """A COSMOS item against a field."""
    r = leaf.typ
    S.check(S.eq(it.name, leaf.key), "item name or order")
    e = r
    if r.kind == "array":
        from . import asn

        S.check(it.kind == "APPEND_ARRAY_ITEM", "array item kind")
        e = asn.resolve(r.elem)
    elif leaf.fixed is NOTHING:
        S.check(
            it.kind == "APPEND_ITEM", "field without a fixed value is an ID"
        )
    else:
        S.check(
            it.kind == "APPEND_ID_ITEM", "field with a fixed value is no ID"
        )
        v = S.num(it.value)
        want = leaf.fixed
        if want is True or want is False:
            want = int(want)
        if v is None:
            S.fail("fixed value is not a number")
        S.check(v == want, "fixed value")
    if e.kind == "string":
        w = S.intval(it.bits, "bit size")
    else:
        w = S.small(it.bits, "bit size")
    want_states = []
    limits = None
    if e.kind == "int":
        if S.truth(e.lo >= 0):
            S.check(S.eq(it.type, "UINT"), "item type")
            S.check(1 <= w <= 64, "bit size")
            S.check(e.hi <= (1 << w) - 1, "upper bound does not fit")
            if w > 1:
                S.check(e.hi >= 1 << (w - 1), "more bits than needed")
        else:
            S.check(S.eq(it.type, "INT"), "item type")
            S.check(w in (8, 16, 32, 64), "bit size")
            S.check(
                land(e.lo >= -(1 << (w - 1)), e.hi <= (1 << (w - 1)) - 1),
                "range does not fit",
            )
            if w > 8:
                h = w // 2
                S.check(
                    lor(e.lo < -(1 << (h - 1)), e.hi > (1 << (h - 1)) - 1),
                    "more bits than needed",
                )
    elif e.kind == "bool":
        S.check(S.eq(it.type, "UINT") and w == 1, "BOOLEAN item")
        want_states = None
    elif e.kind == "enum":
        n = len(e.target.items)
        S.check(S.eq(it.type, "UINT"), "item type")
        S.check(w == bits(n - 1), "ENUMERATED bit size")
        want_states = getattr(e.target, "states", [i[0] for i in e.target.items])
    elif e.kind == "real":
        flt = S.truth(is_float(e.lo, e.hi))
        S.check(S.eq(it.type, "FLOAT"), "item type")
        S.check(w == (32 if flt else 64), "REAL bit size")
        limits = (e.lo, e.hi, flt)
    elif e.kind == "string":
        S.check(S.eq(it.type, "STRING"), "item type")
        S.check(w == 8 * e.length, "string bit size")
    else:
        S.fail("unexpected item")
    if r.kind == "array":
        S.check(
            S.intval(it.array, "array size") == r.length * w,
            "array bit size",
        )
    if want_states is not None:
        S.check(len(it.states) == len(want_states), "number of states")
        for i, ((n, v), s) in enumerate(zip(it.states, want_states)):
            S.check(
                land(S.eq(n, s), S.intval(v, "state") == i), "state name or value"
            )
    elif e.kind == "bool":
        S.check(
            it.states == [("False", "0"), ("True", "1")]
            or (it.states == [] and leaf.declared.kind != "bool"),
            "BOOLEAN states",
        )
    if limits:
        import sys

        lo, hi, flt = limits
        top = FLT if flt else sys.float_info.max
        narrower = lor(lo > -top, hi < top)
        if S.truth(narrower):
            S.check(it.limits is not None, "LIMITS are missing")
            S.check(
                it.limits[:3] == ["DEFAULT", "5", "ENABLED"], "LIMITS format"
            )
            vals = [S.num(x) for x in it.limits[3:]]
            S.check(
                land(*[v == x for v, x in zip(vals, (lo, lo, hi, hi))]),
                "LIMITS are not the declared range",
            )
        else:
            S.check(it.limits is None, "LIMITS for an unlimited range")
    else:
        S.check(it.limits is None, "unexpected LIMITS")


def check_packet(S, p, d, target="tgt"):
    S.check(S.eq(p.name, d.name), "packet name")
    S.check(p.target == target, "target name")
    S.check(p.endianness == "BIG_ENDIAN", "packet endianness")
    leaves = flatten(d)
    S.check(len(p.items) == len(leaves), "number of items")
    for it, leaf in zip(p.items, leaves):
        check_item(S, it, leaf)
    return leaves
