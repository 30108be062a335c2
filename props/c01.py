"""C01: INTEGER ranges decide the type and width of generated C members."""
from symapg import asn, oracle, world
from symapg.asn import H
from symapg.core import land

KINDS = {"cfs": "m_msg.h", "c": "m.h", "binary": "m.h"}


def run_one(S, kind, form, lo, hi):
    t = asn.integer(S, lo, hi)
    rng = t
    mods = []
    defs, imports = [], []
    if form == "local":
        defs.append(asn.simple(S, "Def", t))
        rng = asn.ref(S, "Def")
    elif form == "imported":
        mods.append(("base", asn.module(S, "base", [asn.simple(S, "Def", t)])))
        rng = asn.ref(S, "Def")
        imports = [(["Def"], "base")]
    defs.append(
        asn.sequence(
            S,
            "Seq",
            [
                asn.member(S, "before", asn.integer(S, 0, 255)),
                asn.member(S, "val", rng),
            ],
        )
    )
    mods.append(("m", asn.module(S, "m", defs, imports)))
    return asn.run(S, kind, mods)


def harness(kind, form, lo_b, hi_b):
    def h(S):
        lo = S.int("lo", *lo_b)
        hi = S.int("hi", *hi_b)
        r = run_one(S, kind, form, lo, hi)
        if not S.truth(oracle.int_supported(lo, hi)):
            S.cover("unsupported")
            S.check(r.rejected, "range that fits no type is accepted")
            return
        S.check(r.ok, "valid range is rejected")
        f = S.c(r, KINDS[kind])
        st = [s for s in f.structs() if s.name == "Seq"]
        S.check(len(st) == 1 and len(st[0].members) == 2, "struct Seq")
        a, m = st[0].members
        S.check(a.name == "before" and m.name == "val", "member names")
        S.check(a.ctype == "uint8_t" and a.width is None, "neighbour member")
        oracle.check_int(S, m, lo, hi)
        S.cover("signed" if S.truth(lo < 0) else "unsigned")

    return h


def pair(kind, bounds, real=False):
    """Two ranges in one run do not influence each other."""

    def h(S):
        (l1, h1), (l2, h2) = bounds
        lo1, hi1 = S.int("first lower bound", *l1), S.int("first upper bound", *h1)
        lo2, hi2 = S.int("second lower bound", *l2), S.int("second upper bound", *h2)
        a, b = asn.integer(S, lo1, hi1), asn.integer(S, lo2, hi2)
        more = []
        if real:
            # 0 == 0.0 and 10 == 10.0
            more = [asn.member(S, "rea", asn.real(S, 0.0, 10.0))]
        place = S.pick("place", PLACES)
        mods, imp = [], []
        if place == "same":
            defs = [asn.sequence(S, "One", more + [asn.member(S, "va", a), asn.member(S, "vb", b)])]
        elif place == "other":
            defs = [
                asn.sequence(S, "One", more + [asn.member(S, "va", a)]),
                asn.sequence(S, "Two", [asn.member(S, "vb", b)]),
            ]
        else:
            da, db = asn.simple(S, "Def-a", a), asn.simple(S, "Def-b", b)
            defs = [
                db,
                asn.sequence(S, "One", more + [asn.member(S, "va", asn.ref(S, da)), asn.member(S, "vb", asn.ref(S, db))]),
            ]
            if place == "modules":
                mods.append(("base", asn.module(S, "base", [da])))
                imp = [(["Def-a"], "base")]
            else:
                defs.insert(0, da)
        mods.append(("m", asn.module(S, "m", defs, imp)))
        r = asn.run(S, kind, mods)
        if not S.truth(land(oracle.int_supported(lo1, hi1), oracle.int_supported(lo2, hi2))):
            S.cover("unsupported")
            S.check(r.rejected, "range that fits no type is accepted")
            return
        S.check(r.ok, "valid ranges are rejected")
        ms = {m.name: m for s in S.c(r, KINDS[kind]).structs() for m in s.members}
        S.check(set(ms) == ({"va", "vb", "rea"} if real else {"va", "vb"}), "members")
        oracle.check_int(S, ms["va"], lo1, hi1)
        oracle.check_int(S, ms["vb"], lo2, hi2)
        S.cover(place)

    return h


PLACES = ("same", "other", "local", "modules")


def pairs(q):
    B = 1 << (66 if q else 80)
    neg, up = (-B, -1), (-B, B)
    low, top = (0, 40), (0, 300)
    out = []
    for kind in KINDS:
        for name, bounds in {
            "signed": ((neg, up), (neg, up)),
            "mixed": ((neg, up), (low, top)),
            "unsigned": (((0, 7), (0, 15)), (low, top)),
        }.items():
            if q and kind == "binary" and name != "signed":
                continue
            out.append(
                H(
                    "pair-%s-%s" % (name, kind),
                    pair(kind, bounds, name == "unsigned"),
                    "two ranges with bounds in %s, in the same or other sequences, definitions, modules" % (bounds,),
                    cover=PLACES + ("unsupported",),
                )
            )
    return out


def harnesses(tier):
    big = 1 << (66 if tier == "quick" else 80)
    out = world.spoilers(("cfs", "c", "binary", "cosmos"), ("range",), tier == "quick", "reversed range is accepted")
    out += pairs(tier == "quick")
    for kind in KINDS:
        for form in ("inline", "local", "imported"):
            out.append(
                H(
                    "%s-%s" % (kind, form),
                    harness(kind, form, (-big, big), (-big, big)),
                    "every lower and upper bound in [-2^%d, 2^%d], independently"
                    % (big.bit_length() - 1, big.bit_length() - 1),
                    cover=("signed", "unsigned", "unsupported"),
                )
            )
    out += world.harnesses(("cfs", "c", "binary"), lambda S, w, r: w.check_types(r))
    return out
