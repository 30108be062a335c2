"""C09: standard type names only with their standard range, no NULL."""
import sys

from symapg import asn, oracle, world
from symapg.asn import H
from symapg.core import land

D = sys.float_info.max
INTS = {
    "Int8-t": (-(1 << 7), (1 << 7) - 1),
    "Int16-t": (-(1 << 15), (1 << 15) - 1),
    "Int32-t": (-(1 << 31), (1 << 31) - 1),
    "Int64-t": (-(1 << 63), (1 << 63) - 1),
    "Uint8-t": (0, (1 << 8) - 1),
    "Uint16-t": (0, (1 << 16) - 1),
    "Uint32-t": (0, (1 << 32) - 1),
    "Uint64-t": (0, (1 << 64) - 1),
}
REALS = {"Float": (-3.4e38, 3.4e38), "Double": (-D, D)}


def outfile(gen):
    return {"cfs": "m_msg.h"}.get(gen, "m.h")


def run(S, gen, name, typ, imported):
    sd = asn.simple(S, name, typ)
    members = [
        asn.member(S, "first", asn.ref(S, sd)),
        asn.member(S, "flag", asn.boolean(S)),
        asn.member(S, "arr", asn.array(S, 3, asn.ref(S, sd))),
    ]
    seq = asn.sequence(S, "Msg", members)
    if imported:
        mods = [
            ("m", asn.module(S, "m", [seq], [([sd], "std")])),
            ("std", asn.module(S, "std", [sd])),
        ]
    else:
        mods = [("m", asn.module(S, "m", [seq, sd]))]
    names = ["m"] if gen == "cosmos" else None
    return seq, asn.run(S, gen, mods, names, messages=["Msg"])


def judge(S, gen, seq, r, good, tag):
    if not good:
        S.check(r.rejected, "other range for a standard type is accepted")
        S.cover("rejected")
        return
    S.check(r.ok, "standard type is rejected")
    S.cover(tag)
    if gen == "cosmos":
        (p,) = S.cosmos(r)
        oracle.check_packet(S, p, seq)
        return
    f = S.c(r, outfile(gen))
    oracle.check_struct(S, f, seq)


def ints(gen):
    def h(S):
        name = S.pick("name", sorted(INTS))
        lo = S.int("lo", -(1 << 66), 1 << 66)
        hi = S.int("hi", -(1 << 66), 1 << 66)
        seq, r = run(S, gen, name, asn.integer(S, lo, hi), S.flag("imported"))
        a, b = INTS[name]
        good = S.truth(land(lo == a, hi == b))
        judge(S, gen, seq, r, good, name)

    return h


def reals(gen):
    def h(S):
        name = S.pick("name", sorted(REALS))
        lo, hi = S.float("lo"), S.float("hi")
        seq, r = run(S, gen, name, asn.real(S, lo, hi), S.flag("imported"))
        a, b = REALS[name]
        good = S.truth(land(lo == a, hi == b))
        judge(S, gen, seq, r, good, name)

    return h


def other_kinds(gen):
    """A standard name for something that is no range at all."""

    def h(S):
        name = S.pick("name", sorted(INTS) + sorted(REALS))
        kind = S.pick("kind", ("bool", "int", "real", "no range"))
        if kind == "bool":
            t = asn.boolean(S)
        elif kind == "no range":
            t = asn.T("INTEGER" if name in INTS else "REAL", "int")
        elif kind == "int":
            S.assume(name in REALS)
            t = asn.integer(S, S.int("lo", -9, 9), S.int("hi", -9, 9))
        else:
            S.assume(name in INTS)
            t = asn.real(S, S.float("lo"), S.float("hi"))
            if name in INTS:
                a, b = INTS[name]
                S.assume(t.lo != float(a))
        seq, r = run(S, gen, name, t, False)
        S.check(r.rejected, "standard type name for another kind of type")
        S.cover(kind)

    return h


def null(gen):
    """NULL as a member, as an array element or as a definition."""

    def h(S):
        place = S.pick(
            "place", ("first", "middle", "last", "definition", "array")
        )
        nul = asn.T("NULL", "null")
        ms = [asn.member(S, k, asn.integer(S, 0, 7)) for k in "abc"]
        defs = []
        i = {"first": 0, "middle": 1, "last": 2}.get(place)
        if i is not None:
            ms[i] = asn.member(S, "n", nul)
        if place == "array":
            ms[1] = asn.member(S, "n", asn.array(S, 3, nul))
        if place == "definition":
            defs.append(asn.simple(S, "Nothing", nul))
        seq = asn.sequence(S, "Msg", ms)
        clean = asn.sequence(
            S, "Clean", [asn.member(S, "a", asn.integer(S, 0, 7))]
        )
        mods = [("m", asn.module(S, "m", [clean])), ("n", asn.module(S, "n", [seq] + defs))]
        if S.flag("other order"):
            mods.reverse()
        names = ["m"] if gen == "cosmos" else None
        r = asn.run(S, gen, mods, names, messages=["Clean"])
        S.check(r.rejected, "NULL is accepted")
        S.check(len(r.files) == 0, "output for NULL")
        S.cover(place)

    return h


def null_anywhere(gen):
    """NULL instead of any type name of a large bundle."""
    n = world.count_sites(gen)["type"]

    def h(S):
        site = S.choose("site", n)

        def mut(kind, i, name):
            return "NULL" if kind == "type" and i == site else None

        r = world.World(S, gen, "plain", False, mut=mut).run()
        S.check(r.rejected, "NULL is accepted")
        S.check(len(r.files) == 0, "output for NULL")
        S.cover("rejected")

    return h


def harnesses(tier):
    out = [
        H("null-anywhere-" + g, null_anywhere(g), "NULL instead of any type reference of a bundle of four modules", cover=("rejected",))
        for g in ("cfs", "c", "binary", "cosmos")
    ]
    out += world.harnesses(
        ("cfs", "c", "binary"), lambda S, w, r: w.check_types(r)
    )
    out += world.harnesses(("cosmos",), lambda S, w, r: w.check_packets(r))
    gens = ("cfs", "c", "binary", "cosmos")
    out += world.spoilers(gens, ("null",), tier == "quick", "NULL is accepted")
    for g in gens:
        out.append(H("int-" + g, ints(g), "every name and every pair of bounds in [-2^66, 2^66]", cover=tuple(INTS) + ("rejected",)))
        out.append(H("real-" + g, reals(g), "every name and every pair of finite doubles", cover=tuple(REALS) + ("rejected",)))
        out.append(H("kind-" + g, other_kinds(g), "standard names for BOOLEAN, the other number kind, no range", cover=("bool", "int", "real", "no range")))
        out.append(H("null-" + g, null(g), "NULL at five places", cover=("first", "middle", "last", "definition", "array")))
    return out
