"""C12: WITH COMPONENTS may only name fields that exist."""
from symapg import asn, oracle, world
from symapg.asn import H

LEAF = ("num", "p-q")
MID = ("one", "val", "two")


def types(S):
    leaf = asn.sequence(
        S, "Leaf", [asn.member(S, k, asn.integer(S, 0, 255)) for k in LEAF]
    )
    mid = asn.sequence(
        S,
        "Mid",
        [
            asn.member(S, "one", asn.ref(S, leaf)),
            asn.member(S, "val", asn.integer(S, 0, 255)),
            asn.member(S, "two", asn.ref(S, leaf)),
        ],
    )
    top = asn.sequence(
        S,
        "Top",
        [
            asn.member(S, "mid", asn.ref(S, mid)),
            asn.member(S, "num", asn.integer(S, 0, 255)),
        ],
    )
    return leaf, mid, top


def among(S, x, names):
    return any(S.truth(S.eq(x, y)) for y in names)


def key(S, label, lengths=(3,)):
    """A key that may or may not be a field."""
    n = S.pick("length of " + label, lengths)
    return S.name(label, n, "numpqoetwvalid-")


def finish(S, gen, msg, defs, good, place, extra=()):
    leaf, mid, top = defs
    if place == "local":
        mods = [("m", asn.module(S, "m", [msg, *extra, top, mid, leaf]))]
    elif place == "one":
        mods = [
            ("m", asn.module(S, "m", [msg, *extra], [([top, mid, leaf], "lib")])),
            ("lib", asn.module(S, "lib", [top, leaf, mid])),
        ]
    else:
        mods = [
            ("m", asn.module(S, "m", [msg, *extra], [([top], "lib"), ([mid], "base"), ([leaf], "base")])),
            ("lib", asn.module(S, "lib", [top], [([mid], "base")])),
            ("base", asn.module(S, "base", [leaf, mid])),
        ]
    r = asn.run(
        S,
        gen,
        mods,
        ["m"] if gen == "cosmos" else None,
        messages=["Msg"],
        endianness="big-endian",
    )
    if not good:
        S.check(r.rejected, "unknown key is accepted")
        S.check(len(r.files) == 0, "output in spite of the unknown key")
        S.cover("rejected")
        return
    S.check(r.ok, "existing keys are rejected")
    S.cover("accepted")


def shapes(gen, place, lengths=(3,)):
    def h(S):
        defs = types(S)
        leaf, mid, top = defs
        depth = S.choose("depth", 3)
        k = key(S, "key", lengths)
        v = S.int("value", 0, 255)
        pair = (k, v)
        if depth == 2:
            # the key in one of two sub-structures, before or after another
            good = among(S, k, LEAF)
            other = ("p-q", 3) if not S.truth(S.eq(k, "p-q")) else ("num", 3)
            comps = [other, pair] if S.flag("last") else [pair, other]
            sub = S.pick("sub", ("one", "two"))
            comps = [(sub, comps)]
            if S.flag("sibling"):
                sib = ("val", 4) if S.flag("flat sibling") else (
                    "two" if sub == "one" else "one",
                    [("num", 9)],
                )
                comps = comps + [sib] if S.flag("sibling last") else [sib] + comps
            comps = [("mid", comps)]
        elif depth == 1:
            # a number for a structure: not the subject of this property
            S.assume(not among(S, k, ("one", "two")))
            good = among(S, k, ("val",))
            comps = [("one", [("num", 1)]), pair]
            if S.flag("first"):
                comps.reverse()
            comps = [("mid", comps)]
        else:
            S.assume(not among(S, k, ("mid",)))
            good = among(S, k, ("num",))
            comps = [("mid", [("val", 1)]), pair]
            if S.flag("first"):
                comps.reverse()
        msg = asn.sequence(
            S,
            "Msg",
            [
                asn.member(S, "before", asn.integer(S, 0, 255)),
                asn.member(S, "pay", asn.ref(S, top), comps),
                asn.member(S, "plain", asn.ref(S, leaf)),
            ],
        )
        finish(S, gen, msg, defs, good, place)
        S.cover("depth %d" % depth)

    return h


def containers(gen, place):
    """The unknown key is the one that leads deeper."""

    def h(S):
        defs = types(S)
        leaf, mid, top = defs
        k = key(S, "key", (2, 3, 4))
        if S.flag("deep"):
            good = among(S, k, ("one", "two"))
            comps = [("mid", [("val", 1), (k, [("num", 2)])])]
        else:
            good = among(S, k, ("mid",))
            comps = [("num", 7), (k, [("val", 2)])]
        # a number is no structure: known finding, see below
        S.assume(not among(S, k, ("val", "num")))
        msg = asn.sequence(
            S, "Msg", [asn.member(S, "pay", asn.ref(S, top), comps)]
        )
        finish(S, gen, msg, defs, good, place)

    return h


def members(gen, place):
    """Two members and two messages with constraints; any may be wrong."""

    def h(S):
        defs = types(S)
        leaf, mid, top = defs
        ka, kb, kc = key(S, "key a"), key(S, "key b"), key(S, "key c")
        msg = asn.sequence(
            S,
            "Msg",
            [
                asn.member(S, "a", asn.ref(S, leaf), [(ka, 1)]),
                asn.member(S, "b", asn.ref(S, mid), [("one", [(kb, 2)])]),
            ],
        )
        late = asn.sequence(
            S, "Late", [asn.member(S, "c", asn.ref(S, top), [("mid", [(kc, 3)])])]
        )
        S.assume(not among(S, kc, ("one", "two")))
        good = among(S, ka, LEAF) and among(S, kb, LEAF) and among(S, kc, ("val",))
        finish(S, gen, msg, defs, good, place, (late,))

    return h


def not_a_structure(gen):
    """WITH COMPONENTS of an ENUMERATED, a simple definition or a CHOICE."""

    def h(S):
        kind = S.pick("kind", ("enum", "simple"))
        if kind == "enum":
            d = asn.enumerated(S, "Odd", [("red", None), ("green", None)])
        else:
            d = asn.simple(S, "Odd", asn.integer(S, 0, 255))
        k = key(S, "key")
        wc = [(k, S.int("value", 0, 255))]
        if S.flag("nested"):
            pay = asn.sequence(S, "Pay", [asn.member(S, "odd", asn.ref(S, d))])
            msg = asn.sequence(
                S, "Msg", [asn.member(S, "pay", asn.ref(S, pay), [("odd", wc)])]
            )
            defs = [msg, pay, d]
        else:
            msg = asn.sequence(S, "Msg", [asn.member(S, "odd", asn.ref(S, d), wc)])
            defs = [msg, d]
        r = asn.run(
            S,
            gen,
            [("m", asn.module(S, "m", defs))],
            ["m"],
            messages=["Msg"],
            endianness="big-endian",
        )
        S.check(r.rejected, "components of a type without components")
        S.cover(kind)

    return h


def predefined(gen):
    """WITH COMPONENTS of a number."""

    def h(S):
        v = S.int("value", 0, 255)
        if S.flag("nested"):
            pay = asn.sequence(
                S, "Pay", [asn.member(S, "num", asn.integer(S, 0, 255))]
            )
            msg = asn.sequence(
                S,
                "Msg",
                [asn.member(S, "pay", asn.ref(S, pay), [("num", [("foo", v)])])],
            )
            defs = [msg, pay]
        else:
            msg = asn.sequence(
                S,
                "Msg",
                [asn.member(S, "num", asn.integer(S, 0, 255), [("foo", v)])],
            )
            defs = [msg]
        r = asn.run(
            S, gen, [("m", asn.module(S, "m", defs))], ["m"], messages=["Msg"]
        )
        S.cover("run")
        S.check(r.rejected, "components of a predefined type are accepted")

    return h


def anywhere(gen, variants):
    """One key of the constraints of a large bundle is something else."""
    count = world.count_sites(gen)

    def h(S):
        scheme, form, rev = S.pick("names, change, reverse", variants)
        mut, st = world.mutation(S, ["key"], count, form)
        w = world.World(S, gen, scheme, rev, mut=mut)
        old, new = st["changed"]
        keys = list(w.key.values())
        r = w.run()
        S.check(not r.hang, "does not terminate")
        if S.truth(S.eq(old, new)):
            S.check(r.ok, "existing keys are rejected")
            S.cover("accepted")
            return
        if new in keys:
            return  # another key, perhaps a valid one
        S.check(r.rejected, "unknown key is accepted")
        S.check(len(r.files) == 0, "output in spite of the unknown key")
        S.cover("rejected")

    return h


def repeated(gen, place):
    """Several members and messages constrain the same types."""

    def h(S):
        defs = types(S)
        leaf, mid, top = defs
        ks = [key(S, "key %s" % x) for x in "abcd"]
        msg = asn.sequence(
            S,
            "Msg",
            [
                asn.member(S, "a", asn.ref(S, leaf), [(ks[0], 1)]),
                asn.member(S, "b", asn.ref(S, mid), [("one", [("num", 2)])]),
            ],
        )
        second = asn.sequence(
            S, "Second", [asn.member(S, "b", asn.ref(S, mid), [("one", [(ks[1], 2)])])]
        )
        third = asn.sequence(
            S, "Third", [asn.member(S, "a", asn.ref(S, leaf), [(ks[2], 1)])]
        )
        fourth = asn.sequence(
            S, "Fourth", [asn.member(S, "b", asn.ref(S, mid), [("two", [(ks[3], 2)])])]
        )
        good = all(among(S, k, LEAF) for k in ks)
        finish(S, gen, msg, defs, good, place, (second, third, fourth))

    return h


def harnesses(tier):
    q = tier == "quick"
    out = []
    for g in ("cfs", "c", "binary", "cosmos"):
        out.append(
            H(
                "anywhere-" + g,
                anywhere(g, world.variants(q)),
                "any key of a bundle of four modules shortened, extended or with any last letter",
                cover=("accepted", "rejected"),
            )
        )
        if g != "binary":
            out.append(
                H("repeated-" + g, repeated(g, "local" if g != "c" else "one"), "five constraints of two types in four messages, four symbolic keys", cover=("accepted", "rejected"))
            )
    for g in ("cfs", "c", "binary", "cosmos"):
        for place in ("local", "one", "two"):
            if g == "binary" and place != "local":
                continue  # fixed values of imported types are not supported
            if q and place == "two" and g != "cosmos":
                continue
            b = ", every key of 3 (2 to 5) characters of 12 letters and '-'"
            out.append(
                H(
                    "shapes-%s-%s" % (g, place),
                    shapes(g, place, (2, 3, 5) if not q or (g, place) == ("cfs", "local") else (3,)),
                    "one symbolic key at depth 1 to 3, siblings before or after" + b,
                    cover=("accepted", "rejected", "depth 0", "depth 1", "depth 2"),
                )
            )
            out.append(
                H("containers-%s-%s" % (g, place), containers(g, place), "a symbolic key of an inner constraint" + b, cover=("accepted", "rejected"))
            )
            if g != "binary":
                out.append(
                    H("members-%s-%s" % (g, place), members(g, place), "three constraints in two messages" + b, cover=("accepted", "rejected"))
                )
        out.append(H("kind-" + g, not_a_structure(g), "constraints of other kinds of types" + b, cover=("enum", "simple")))
        out.append(H("predefined-" + g, predefined(g), "constraints of an INTEGER", cover=("run",)))
    return out
