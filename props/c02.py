"""C02: REAL ranges decide between single and double precision."""
from symapg import asn, oracle, world
from symapg.asn import H
from symapg.core import land

FILES = {"cfs": "m_msg.h", "c": "m.h", "binary": "m.h"}


def build(S, form, t):
    mods, defs, imports, rng = [], [], [], t
    if form == "local":
        d = asn.simple(S, "Def", t)
        defs.append(d)
        rng = asn.ref(S, d)
    elif form == "imported":
        d = asn.simple(S, "Def", t)
        mods.append(("base", asn.module(S, "base", [d])))
        rng = asn.ref(S, d)
        imports = [([d], "base")]
    seq = asn.sequence(
        S,
        "Seq",
        [
            asn.member(S, "before", asn.integer(S, 0, 255)),
            asn.member(S, "val", rng),
        ],
    )
    defs.append(seq)
    mods.append(("m", asn.module(S, "m", defs, imports)))
    return mods, seq


def harness(kind, form):
    def h(S):
        lo, hi = S.float("lo"), S.float("hi")
        mods, seq = build(S, form, asn.real(S, lo, hi))
        if kind == "cosmos":
            r = asn.run(S, kind, mods, ["m"], messages=["Seq"])
        else:
            r = asn.run(S, kind, mods)
        if not S.truth(lo <= hi):
            S.cover("reversed")
            S.check(r.rejected, "reversed range is accepted")
            return
        S.check(r.ok, "valid range is rejected")
        if kind == "cosmos":
            ps = S.cosmos(r)
            S.check(len(ps) == 1, "one packet")
            oracle.check_packet(S, ps[0], seq)
        else:
            oracle.check_struct(S, S.c(r, FILES[kind]), seq)
        S.cover("float" if S.truth(oracle.is_float(lo, hi)) else "double")

    return h


PLACES = ("same", "other", "local", "modules")


def pair(kind):
    """Two ranges in one run do not influence each other."""

    def h(S):
        a = [S.float("first lower bound"), S.float("first upper bound")]
        b = [S.float("second lower bound"), S.float("second upper bound")]
        share = S.pick("shared bound", ("none", "lower", "upper"))
        if share == "lower":
            b[0] = a[0]
        if share == "upper":
            b[1] = a[1]
        ta, tb = asn.real(S, *a), asn.real(S, *b)
        place = S.pick("place", PLACES)
        mods, imp = [], []
        if place == "same":
            seqs = [asn.sequence(S, "One", [asn.member(S, "va", ta), asn.member(S, "vb", tb)])]
            defs = list(seqs)
        elif place == "other":
            seqs = [asn.sequence(S, "One", [asn.member(S, "va", ta)]), asn.sequence(S, "Two", [asn.member(S, "vb", tb)])]
            defs = list(seqs)
        else:
            da, db = asn.simple(S, "Def-a", ta), asn.simple(S, "Def-b", tb)
            seqs = [asn.sequence(S, "One", [asn.member(S, "va", asn.ref(S, da)), asn.member(S, "vb", asn.ref(S, db))])]
            defs = [db] + seqs
            if place == "modules":
                mods.append(("base", asn.module(S, "base", [da])))
                imp = [([da], "base")]
            else:
                defs.insert(0, da)
        mods.append(("m", asn.module(S, "m", defs, imp)))
        if kind == "cosmos":
            r = asn.run(S, kind, mods, ["m"], messages=[s.name for s in seqs])
        else:
            r = asn.run(S, kind, mods)
        if not S.truth(land(a[0] <= a[1], b[0] <= b[1])):
            S.check(r.rejected, "reversed range is accepted")
            return
        S.check(r.ok, "valid range is rejected")
        if kind == "cosmos":
            ps = S.cosmos(r)
            S.check(len(ps) == len(seqs), "packets")
            for p, s in zip(ps, seqs):
                oracle.check_packet(S, p, s)
        else:
            f = S.c(r, FILES[kind])
            for s in seqs:
                oracle.check_struct(S, f, s)
        S.cover(place)

    return h


def types(S, w, r):
    w.check_types(r)


def packets(S, w, r):
    w.check_packets(r)


def harnesses(tier):
    out = world.harnesses(("cfs", "c", "binary"), types)
    out += world.harnesses(("cosmos",), packets)
    out += world.spoilers(("cfs", "c", "binary", "cosmos"), ("real",), tier == "quick", "reversed range is accepted")
    for k in ("cfs", "c", "binary", "cosmos"):
        out.append(
            H("pair-" + k, pair(k), "two ranges with any finite IEEE double bounds, one of them shared or none", cover=PLACES)
        )
    return out + [
        H(
            "%s-%s" % (k, f),
            harness(k, f),
            "every pair of finite IEEE double bounds",
            cover=("reversed", "float", "double"),
        )
        for k in ("cfs", "c", "binary", "cosmos")
        for f in ("inline", "local", "imported")
    ]
